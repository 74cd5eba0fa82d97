//! Independent reference for QR symbols (ISO/IEC 18004), written from the
//! standard and sharing nothing with the crate under test.
//! Levels are the 2 bit format indicators: 0 = M, 1 = L, 2 = H, 3 = Q.

const ECC_L: [usize; 41] = [0,7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30];
const ECC_M: [usize; 41] = [0,10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28];
const ECC_Q: [usize; 41] = [0,13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30];
const ECC_H: [usize; 41] = [0,17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30];
const NB_L: [usize; 41] = [0,1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25];
const NB_M: [usize; 41] = [0,1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49];
const NB_Q: [usize; 41] = [0,1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68];
const NB_H: [usize; 41] = [0,1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81];

pub fn ecc_len(v: usize, level: usize) -> usize {
    [ECC_M, ECC_L, ECC_H, ECC_Q][level][v]
}
pub fn blocks(v: usize, level: usize) -> usize {
    [NB_M, NB_L, NB_H, NB_Q][level][v]
}
pub fn size(v: usize) -> usize {
    4 * v + 17
}
pub fn align(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut r: Vec<usize> = (0..n - 1).map(|i| size(v) - 7 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}
/// Function modules, indexed `y * size + x`
pub fn function_map(v: usize) -> Vec<bool> {
    let n = size(v);
    let mut m = vec![false; n * n];
    let mut set = |y0: usize, y1: usize, x0: usize, x1: usize| {
        for y in y0..y1 {
            for x in x0..x1 {
                m[y * n + x] = true;
            }
        }
    };
    set(0, 9, 0, 9);
    set(0, 9, n - 8, n);
    set(n - 8, n, 0, 9);
    set(6, 7, 0, n);
    set(0, n, 6, 7);
    if v >= 7 {
        set(0, 6, n - 11, n - 8);
        set(n - 11, n - 8, 0, 6);
    }
    let a = align(v);
    let k = a.len();
    for i in 0..k {
        for j in 0..k {
            if (i, j) == (0, 0) || (i, j) == (0, k - 1) || (i, j) == (k - 1, 0) {
                continue;
            }
            set(a[i] - 2, a[i] + 3, a[j] - 2, a[j] + 3);
        }
    }
    m
}
/// (y, x) of the data modules in codeword order
pub fn data_modules(v: usize) -> &'static [(usize, usize)] {
    static T: [std::sync::OnceLock<Vec<(usize, usize)>>; 41] = [const { std::sync::OnceLock::new() }; 41];
    T[v].get_or_init(|| compute_data_modules(v))
}
fn compute_data_modules(v: usize) -> Vec<(usize, usize)> {
    let n = size(v);
    let f = function_map(v);
    let mut r = Vec::new();
    let mut right = n as i64 - 1;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for vert in 0..n {
            for j in 0..2 {
                let x = (right - j) as usize;
                let upward = (right + 1) & 2 == 0;
                let y = if upward { n - 1 - vert } else { vert };
                if !f[y * n + x] {
                    r.push((y, x));
                }
            }
        }
        right -= 2;
    }
    r
}
pub fn total_codewords(v: usize) -> usize {
    data_modules(v).len() / 8
}
pub fn mask(m: usize, i: usize, j: usize) -> bool {
    match m {
        0 => (i + j) % 2 == 0,
        1 => i % 2 == 0,
        2 => j % 3 == 0,
        3 => (i + j) % 3 == 0,
        4 => (i / 2 + j / 3) % 2 == 0,
        5 => i * j % 2 + i * j % 3 == 0,
        6 => (i * j % 2 + i * j % 3) % 2 == 0,
        7 => ((i + j) % 2 + i * j % 3) % 2 == 0,
        _ => unreachable!(),
    }
}
pub fn mul(a: u8, b: u8) -> u8 {
    static T: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..65536u32).map(|k| slow_mul((k >> 8) as u8, k as u8)).collect())[(a as usize) << 8 | b as usize]
}
fn slow_mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        let c = a & 0x80 != 0;
        a <<= 1;
        if c {
            a ^= 0x1d;
        }
        b >>= 1;
    }
    r
}
pub fn mul16(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x10 != 0 {
            a ^= 0x13;
        }
        b >>= 1;
    }
    r
}
fn generator(n: usize) -> Vec<u8> {
    // generator polynomial, highest coefficient (1) left out
    let mut g = vec![0u8; n];
    g[n - 1] = 1;
    let mut root = 1u8;
    for _ in 0..n {
        for j in 0..n {
            g[j] = mul(g[j], root);
            if j + 1 < n {
                g[j] ^= g[j + 1];
            }
        }
        root = mul(root, 2);
    }
    g
}
pub fn rs_parity(data: &[u8], n: usize) -> Vec<u8> {
    static T: [std::sync::OnceLock<Vec<u8>>; 31] = [const { std::sync::OnceLock::new() }; 31];
    let g = T[n].get_or_init(|| generator(n));
    let mut rem = vec![0u8; n];
    for b in data {
        let f = b ^ rem.remove(0);
        rem.push(0);
        for (r, c) in rem.iter_mut().zip(g) {
            *r ^= mul(*c, f);
        }
    }
    rem
}
pub fn syndromes_zero(block: &[u8], npar: usize) -> bool {
    let mut root = 1u8;
    for _ in 0..npar {
        let mut s = 0u8;
        for b in block {
            s = mul(s, root) ^ b;
        }
        if s != 0 {
            return false;
        }
        root = mul(root, 2);
    }
    true
}
/// (data codewords, is long) of each block
pub fn block_lens(v: usize, level: usize) -> Vec<usize> {
    let nb = blocks(v, level);
    let total = total_codewords(v);
    let e = ecc_len(v, level);
    let short = total / nb - e;
    let long = total % nb;
    (0..nb).map(|i| if i < nb - long { short } else { short + 1 }).collect()
}
pub fn data_len(v: usize, level: usize) -> usize {
    block_lens(v, level).iter().sum()
}
pub fn make_blocks(v: usize, level: usize, data: &[u8]) -> Vec<Vec<u8>> {
    let e = ecc_len(v, level);
    let mut pos = 0;
    block_lens(v, level)
        .into_iter()
        .map(|l| {
            let mut b = data[pos..pos + l].to_vec();
            pos += l;
            let p = rs_parity(&b, e);
            b.extend(p);
            b
        })
        .collect()
}
pub fn interleave(v: usize, level: usize, bl: &[Vec<u8>]) -> Vec<u8> {
    let e = ecc_len(v, level);
    let lens = block_lens(v, level);
    let max = *lens.iter().max().unwrap();
    let mut r = Vec::new();
    for k in 0..max {
        for (b, l) in bl.iter().zip(&lens) {
            if k < *l {
                r.push(b[k]);
            }
        }
    }
    for k in 0..e {
        for (b, l) in bl.iter().zip(&lens) {
            r.push(b[l + k]);
        }
    }
    r
}
pub fn format_word(level: usize, mask: usize) -> u16 {
    let d = ((level << 3) | mask) as u32;
    let mut r = d << 10;
    for i in (10..15).rev() {
        if r >> i & 1 != 0 {
            r ^= 0x537 << (i - 10);
        }
    }
    ((d << 10 | r) ^ 0x5412) as u16
}
/// (y, x) of format bit i (0 = least significant) in copy 1 and 2
pub fn format_pos(n: usize, i: usize) -> ((usize, usize), (usize, usize)) {
    let c1 = match i {
        0..=5 => (i, 8),
        6 => (7, 8),
        7 => (8, 8),
        8 => (8, 7),
        _ => (8, 14 - i),
    };
    let c2 = if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) };
    (c1, c2)
}
#[derive(Clone)]
pub struct Sym {
    pub n: usize,
    pub cells: Vec<bool>,
}
impl Sym {
    pub fn get(&self, y: usize, x: usize) -> bool {
        self.cells[y * self.n + x]
    }
    pub fn set(&mut self, y: usize, x: usize, b: bool) {
        self.cells[y * self.n + x] = b;
    }
    pub fn transpose(&self) -> Sym {
        let n = self.n;
        Sym { n, cells: (0..n * n).map(|k| self.get(k % n, k / n)).collect() }
    }
    pub fn set_format(&mut self, w1: u16, w2: u16) {
        for i in 0..15 {
            let (a, b) = format_pos(self.n, i);
            self.set(a.0, a.1, w1 >> i & 1 != 0);
            self.set(b.0, b.1, w2 >> i & 1 != 0);
        }
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for c in self.cells.chunks(4) {
            let v = c.iter().enumerate().map(|(i, b)| (*b as u8) << (3 - i)).sum::<u8>();
            s.push(char::from_digit(v as u32, 16).unwrap());
        }
        format!("size {} rows-of-bits {}", self.n, s)
    }
}
/// A complete symbol with the given (possibly damaged) codeword sequence
pub fn symbol(v: usize, level: usize, m: usize, codewords: &[u8]) -> Sym {
    let n = size(v);
    let mut s = Sym { n, cells: vec![false; n * n] };
    for y in 0..n {
        s.set(y, 6, y % 2 == 0);
        s.set(6, y, y % 2 == 0);
    }
    for (cy, cx) in [(3i64, 3i64), (3, n as i64 - 4), (n as i64 - 4, 3)] {
        for y in cy - 4..=cy + 4 {
            for x in cx - 4..=cx + 4 {
                if y >= 0 && x >= 0 && y < n as i64 && x < n as i64 {
                    let d = (y - cy).abs().max((x - cx).abs());
                    s.set(y as usize, x as usize, d != 2 && d != 4);
                }
            }
        }
    }
    let a = align(v);
    let k = a.len();
    for i in 0..k {
        for j in 0..k {
            if (i, j) == (0, 0) || (i, j) == (0, k - 1) || (i, j) == (k - 1, 0) {
                continue;
            }
            for y in 0..5 {
                for x in 0..5 {
                    let d = (y as i64 - 2).abs().max((x as i64 - 2).abs());
                    s.set(a[i] + y - 2, a[j] + x - 2, d != 1);
                }
            }
        }
    }
    if v >= 7 {
        let mut r = (v as u32) << 12;
        for i in (12..18).rev() {
            if r >> i & 1 != 0 {
                r ^= 0x1f25 << (i - 12);
            }
        }
        let bits = (v as u32) << 12 | r;
        for i in 0..18 {
            let b = bits >> i & 1 != 0;
            s.set(n - 11 + i % 3, i / 3, b);
            s.set(i / 3, n - 11 + i % 3, b);
        }
    }
    let w = format_word(level, m);
    s.set_format(w, w);
    s.set(n - 8, 8, true);
    for (k, (y, x)) in data_modules(v).iter().copied().enumerate() {
        let bit = k / 8 < codewords.len() && codewords[k / 8] >> (7 - k % 8) & 1 != 0;
        s.set(y, x, bit ^ mask(m, y, x));
    }
    s
}
pub fn encode(v: usize, level: usize, m: usize, data: &[u8]) -> Sym {
    symbol(v, level, m, &interleave(v, level, &make_blocks(v, level, data)))
}
#[derive(Default, Clone)]
pub struct Bits(pub Vec<bool>);
impl Bits {
    pub fn put(&mut self, v: usize, n: usize) {
        for i in (0..n).rev() {
            self.0.push(v >> i & 1 != 0);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0
            .chunks(8)
            .map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << (7 - i)).sum())
            .collect()
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End {
    Done,
    Underflow,
    UnknownMode,
    /// not specified (see C01)
    Undef,
}
pub const ALPHA: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
pub fn count_bits(v: usize, mode: usize) -> usize {
    let k = if v <= 9 { 0 } else if v <= 26 { 1 } else { 2 };
    match mode {
        1 => [10, 12, 14][k],
        2 => [9, 11, 13][k],
        4 => [8, 16, 16][k],
        8 => [8, 10, 12][k],
        _ => unreachable!(),
    }
}
/// Reference payload decoder. `write` returning false means the writer failed.
pub fn parse(v: usize, data: &[u8]) -> (Vec<u8>, End) {
    let bits: Vec<bool> = data.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 != 0)).collect();
    let mut pos = 0;
    let mut out = Vec::new();
    let take = |pos: &mut usize, n: usize| -> usize {
        let mut r = 0;
        for _ in 0..n {
            r = r * 2 + bits[*pos] as usize;
            *pos += 1;
        }
        r
    };
    loop {
        if bits.len() - pos < 4 {
            return (out, End::Done);
        }
        let mode = take(&mut pos, 4);
        let rem = |pos: usize| bits.len() - pos;
        match mode {
            0 => return (out, End::Done),
            7 => {
                if rem(pos) < 8 {
                    return (out, End::Underflow);
                }
                let b = take(&mut pos, 8);
                let extra = if b < 0x80 {
                    0
                } else if b < 0xc0 {
                    8
                } else if b < 0xe0 {
                    16
                } else {
                    return (out, End::Undef);
                };
                if rem(pos) < extra {
                    return (out, End::Underflow);
                }
                pos += extra;
            }
            1 | 2 | 4 | 8 => {
                let cb = count_bits(v, mode);
                if rem(pos) < cb {
                    return (out, End::Undef);
                }
                let mut count = take(&mut pos, cb);
                match mode {
                    4 => {
                        if rem(pos) < 8 * count {
                            return (out, End::Underflow);
                        }
                        for _ in 0..count {
                            out.push(take(&mut pos, 8) as u8);
                        }
                    }
                    8 => {
                        if rem(pos) < 13 * count {
                            return (out, End::Underflow);
                        }
                        for _ in 0..count {
                            let d = take(&mut pos, 13);
                            let w = d / 0xc0 * 0x100 + d % 0xc0;
                            let s = if w <= 0x1ebc { w + 0x8140 } else { w + 0xc140 };
                            out.push((s >> 8) as u8);
                            out.push(s as u8);
                        }
                    }
                    1 => {
                        while count > 0 {
                            let k = count.min(3);
                            let nb = [0, 4, 7, 10][k];
                            if rem(pos) < nb {
                                return (out, End::Underflow);
                            }
                            let g = take(&mut pos, nb);
                            if g >= [0, 10, 100, 1000][k] {
                                return (out, End::Undef);
                            }
                            out.extend(format!("{:0k$}", g, k = k).bytes());
                            count -= k;
                        }
                    }
                    _ => {
                        while count > 0 {
                            let k = count.min(2);
                            let nb = [0, 6, 11][k];
                            if rem(pos) < nb {
                                return (out, End::Underflow);
                            }
                            let g = take(&mut pos, nb);
                            if g >= [0, 45, 45 * 45][k] {
                                return (out, End::Undef);
                            }
                            if k == 2 {
                                out.push(ALPHA[g / 45]);
                            }
                            out.push(ALPHA[g % 45]);
                            count -= k;
                        }
                    }
                }
            }
            _ => return (out, End::UnknownMode),
        }
    }
}
