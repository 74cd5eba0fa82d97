"""mkseed.py NAME: (dev) turn the working tree change of /tmp/seedrepo into /verif/seeded/NAME after confirming it.
Spec file: /tmp/seeds/NAME.py defining property, needs, breaks, edits=[(file, old, new)], main (demo source), hooks={module: source}."""
import sys, os, subprocess, json, shutil, runpy
name = sys.argv[1]
PRE = '''#![allow(dead_code, unused)]
mod qr;
struct G(qr::Sym);
impl rqrr::BitGrid for G {
    fn size(&self) -> usize { self.0.n }
    fn bit(&self, y: usize, x: usize) -> bool { self.0.get(y, x) }
}
fn dec(s: &qr::Sym) -> (Result<rqrr::MetaData, rqrr::DeQRError>, Vec<u8>) {
    let mut out = Vec::new();
    let r = rqrr::Grid::new(G(s.clone())).decode_to(&mut out);
    (r, out)
}
/// bit string of (value, width) pairs, terminated and padded to the data capacity
fn stream(v: usize, level: usize, parts: &[(usize, usize)]) -> Vec<u8> {
    let mut bits = Vec::new();
    for &(x, n) in parts { for i in (0..n).rev() { bits.push(x >> i & 1 != 0); } }
    let n = qr::data_len(v, level);
    bits.resize(n * 8, false);
    (0..n).map(|i| (0..8).fold(0, |a, k| a * 2 + bits[8 * i + k] as u8)).collect()
}
fn bytes(v: usize, level: usize, m: &[u8]) -> Vec<u8> {
    let mut p = vec![(4, 4), (m.len(), qr::count_bits(v, 4))];
    p.extend(m.iter().map(|b| (*b as usize, 8)));
    stream(v, level, &p)
}
fn flip(s: &mut qr::Sym, y: usize, x: usize) { let b = s.get(y, x); s.set(y, x, !b); }
fn check(ok: bool, what: &str) { if !ok { println!("{what}"); std::process::exit(1); } }
'''
sp = runpy.run_path("/tmp/seeds/%s.py" % name)
R = "/tmp/seedrepo"
if not os.path.exists(R): subprocess.check_call(["cp", "-a", "/repo", R])
subprocess.check_call("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R)
for f, old, new in sp["edits"]:
    p = os.path.join(R, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
D = "/verif/seeded/" + name
shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
open(D + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=R, text=True))
open(D + "/main.rs", "w").write(PRE + sp["main"])
shutil.copy("/verif/native/src/qr.rs", D + "/qr.rs")
hooks = sp.get("hooks", {})
for m, t in hooks.items():
    os.makedirs(D + "/hooks", exist_ok=True); open(D + "/hooks/%s.rs" % m, "w").write(t)
json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(D + "/meta.json", "w"), indent=1)
open(D + "/demo.sh", "w").write('''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/hooks"; cp "$here"/main.rs "$here"/qr.rs "$t/src/"
for m in decode detect geometry grid prepare; do if [ -f "$here/hooks/$m.rs" ]; then cp "$here/hooks/$m.rs" "$t/hooks/"; else : > "$t/hooks/$m.rs"; fi; done
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nrqrr = { path = "%s" }\\nimage = { version = ">= 0.24, <= 0.25", default-features = false }\\n[profile.release]\\noverflow-checks = true\\n' "$repo" > "$t/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RQRR_VERIF_HOOKS="$t/hooks" RUSTFLAGS="--cfg=rqrr_verif"
cd "$t" && cargo build --release --offline -q 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 120 "$t/target/release/demo"
''')
os.chmod(D + "/demo.sh", 0o755)
b = subprocess.run("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1" % R, shell=True)
j = json.load(open("/tmp/seedtest.json")); bl = json.load(open("/opt/vp/BASELINE.json"))
passed = set(j.get("passed", [])); want = set(bl["stable"] if isinstance(bl, dict) else bl)
print("tests: missing", sorted(want - passed)[:10], len(passed), len(want))
r1 = subprocess.run(["bash", D + "/demo.sh"], cwd=R).returncode
subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=R)
r0 = subprocess.run(["bash", D + "/demo.sh"], cwd=R).returncode
print("demo patched:", r1, "unchanged:", r0, "OK" if r0 == 0 and r1 not in (0, 3) and not (want - passed) else "BAD")
