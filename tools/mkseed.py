"""mkseed.py ID PROP NEEDS BREAKS: turns the uncommitted diff of a scratch copy (/tmp/seedw/repo) plus /tmp/seedw/main.rs
into /verif/seeded/ID.  The demo builds a copy of the type-checking workspace with main.rs as a program."""
import sys, os, shutil, subprocess, json
ID, PROP, NEEDS, BREAKS = sys.argv[1:5]
deps = sys.argv[5] if len(sys.argv) > 5 else 'secq256k1'
D = '/verif/seeded/' + ID
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
diff = subprocess.run(['git', '-C', '/tmp/seedw/repo', 'diff'], capture_output=True, text=True).stdout
open(D + '/patch.diff', 'w').write(diff)
json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(D + '/meta.json', 'w'), indent=1)
shutil.copytree('/verif/shadow', D + '/shadow', ignore=shutil.ignore_patterns('verif_inst', 'target'))
os.makedirs(D + '/shadow/crates/demo/src')
shutil.copy('/tmp/seedw/main.rs', D + '/shadow/crates/demo/src/main.rs')
INNER = open('/verif/shadow/crates/libspartan/Cargo.toml').read().split('[dependencies]')[1].split('[lib]')[0].strip()
known = {'inner': INNER, 'secq256k1': 'secq256k1 = { path = "../secq256k1" }', 'libspartan': 'libspartan = { path = "../libspartan", package = "spartan" }',
         'poseidon': 'poseidon = { path = "../poseidon" }', 'circuit_reader': 'circuit_reader = { path = "../circuit_reader" }', 'spartan_wasm': 'spartan_wasm = { path = "../spartan_wasm" }', 'bincode': 'bincode = "1.2.1"', 'ff': 'ff = "0.12.0"', 'merlin': 'merlin = { path = "../../stubs/merlin" }',
         'scalar': '''hex-literal = { version = "0.3" }
num-bigint-dig = "^0.7"
serde = { version = "1.0.106", features = ["derive"] }
subtle = { version = "2.4" }
zeroize = { version = "1", default-features = false, features = ["alloc"] }
rand_core = { version = "0.6", default-features = false }
rand = { version = "0.8" }
secq256k1 = { path = "../secq256k1" }'''}
open(D + '/shadow/crates/demo/Cargo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + '\n'.join(known[d] for d in deps.split(',')) + '\n')
if 'merlin' in deps or 'inner' in deps:
    # the demo's copy of the transcript stand-in also records what is done to it
    m = D + '/shadow/stubs/merlin/src/lib.rs'
    t = open(m).read()
    t = t.replace('#[derive(Clone)]', '''thread_local! { pub static LOG: std::cell::RefCell<Vec<(char, String, Vec<u8>)>> = std::cell::RefCell::new(Vec::new()); }
pub fn take_log() -> Vec<(char, String, Vec<u8>)> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
fn rec(k: char, l: &[u8], d: &[u8]) { LOG.with(|x| x.borrow_mut().push((k, String::from_utf8_lossy(l).to_string(), d.to_vec()))) }
#[derive(Clone)]''', 1)
    t = t.replace("message: &[u8]) {", "message: &[u8]) {\n        rec('a', label, message);", 1)
    t = t.replace("            chunk.copy_from_slice(&out[..n]);\n        }", "            chunk.copy_from_slice(&out[..n]);\n        }\n        rec('c', label, dest);", 1)
    open(m, 'w').write(t)
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# builds the program shadow/crates/demo against /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=/tmp/demo-%s
rm -rf /tmp/demo-%s
mkdir -p "$w" && cp -a "$here/shadow" "$w/s" && cd "$w/s" || exit 2
CARGO_NET_OFFLINE=true cargo run --offline -q -p demo --target-dir "$w/t" 2>&1 | tail -20
rc=${PIPESTATUS[0]}
rm -rf /tmp/demo-%s
exit $rc
''' % (ID, ID, ID))
os.chmod(D + '/demo.sh', 0o755)
r = subprocess.run(['cargo', 'metadata', '--offline', '--format-version', '1'], cwd=D + '/shadow', capture_output=True, text=True)
if r.returncode:
    print(r.stderr[-1500:])
