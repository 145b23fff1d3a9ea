"""Writes /verif/seeded/<id>/ from (id, property, file, [(old, new), ...], needs, breaks, demo body).
Working tool only: no check uses it. Usage: seed_N.py defines bugs and calls emit(bugs)."""
import json, os, subprocess, shutil, tempfile

DEMO_SH = '''#!/bin/bash
# Exit 0 when the library behaves, 1 when it does not. Run from the library's root, after a build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
lib=$(pwd)
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$lib/Cargo.lock" ] && cp "$lib/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
financelib = { path = "$lib" }
chrono = { version = "*", features = ["serde"] }
serde = { version = "*", features = ["derive"] }
serde_json = { version = "*" }
ron = { version = "*" }
[profile.dev]
debug = 0
incremental = false
[workspace]
EOF
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2>"$work/log" || { cat "$work/log"; exit 3; }
TMPDIR="$work" timeout 100 "$work/target/debug/demo"
'''

HEAD = '''#![allow(unused)]
use chrono::{Datelike, Duration, NaiveDate};
use financelib::*;
use financelib::fixedincomes::bonds::rates::{RateCurve, Rates};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets::*;
use financelib::statements::{*, BsType, PlType, CfType};
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn d(y: i32, m: u32, dd: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, dd).unwrap()
}
fn close(got: f64, want: f64, tol: f64) {
    assert!((got - want).abs() <= tol, "got {got}, expected {want}");
}
fn accounts() -> Accounts {
    Accounts {
        currency: Currency::USD,
        consolidated: true,
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: BTreeMap::new(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    }
}

fn main() {
'''

def emit(bugs, only=None):
    for b in bugs:
        if only and b['id'] not in only: continue
        w = tempfile.mkdtemp()
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, subs in b['edits'].items():
            p = w + '/r/src/' + f
            s = open(p).read()
            for old, new in subs:
                assert s.count(old) == 1, (b['id'], s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
        o = '/verif/seeded/' + b['id']
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo.rs', 'w').write(HEAD + b['demo'].strip('\n') + '\n}\n')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
        open(o + '/meta.json', 'a').write('\n')
        shutil.rmtree(w)
