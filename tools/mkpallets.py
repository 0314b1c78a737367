#!/usr/bin/env python3
"""Writes ws/p/<crate>/Cargo.toml: manifests which compile /repo's pallets against the stand-ins in ws/frame."""
import os, tomllib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CR = '/repo/crates'
SKIP = {'bitcoin'}
FRAME = ['frame-support', 'frame-system', 'sp-runtime', 'sp-core', 'sp-io', 'orml-traits', 'orml-tokens', 'pallet-timestamp', 'visibility']
DIRS = {}
for c in sorted(os.listdir(CR)):
    if os.path.exists(f'{CR}/{c}/Cargo.toml') and c not in SKIP:
        DIRS[c] = tomllib.load(open(f'{CR}/{c}/Cargo.toml', 'rb'))
COMMON = '''codec = { package = "parity-scale-codec", version = "3.1.5", default-features = false, features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.2.0", default-features = false, features = ["derive"] }
sp-arithmetic = { version = "16.0.0", default-features = false, features = ["serde"] }
sp-std = { version = "8.0.0", default-features = false }
log = { version = "0.4.17", default-features = false }
'''
# features of the pallets that are switched on
ON = {}
def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)
for c, d in DIRS.items():
    o = f'[package]\nname = "{d["package"]["name"]}"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "{CR}/{c}/src/lib.rs"\ncrate-type = ["rlib"]\n[features]\ndefault = [{", ".join('"%s"' % x for x in ON.get(c, []))}]\nstd = []\nruntime-benchmarks = []\ntry-runtime = []\ntesting-utils = []\nintegration-tests = []\n[dependencies]\n' + COMMON
    for f in FRAME:
        o += f'{f} = {{ path = "../../frame/{f}" }}\n'
    for k, v in d['dependencies'].items():
        if isinstance(v, dict) and 'path' in v:
            if k == 'primitives':
                o += 'primitives = { package = "interbtc-primitives", path = "../primitives" }\n'
            elif k == 'bitcoin':
                o += 'bitcoin = { path = "../../bitcoin" }\n'
            else:
                o += f'{k} = {{ path = "../{k}" }}\n'
    for k, s in {'num-traits': '{ version = "0.2", default-features = false }', 'num-bigint': '{ version = "0.4", default-features = false }', 'impl-trait-for-tuples': '"0.2.2"',
                 'serde': '{ version = "1.0.130", default-features = false, features = ["derive", "alloc"] }', 'sha2': '{ version = "0.8.2", default-features = false }', 'fixed-hash': '{ version = "0.8.0", default-features = false }'}.items():
        if k in d['dependencies']:
            o += f'{k} = {s}\n'
    put(f'{V}/ws/p/{c}/Cargo.toml', o)
put(f'{V}/ws/p/primitives/Cargo.toml', '''[package]
name = "interbtc-primitives"
version = "1.2.0"
edition = "2021"
[lib]
path = "/repo/primitives/src/lib.rs"
crate-type = ["rlib"]
[features]
default = ["substrate-compat"]
std = []
runtime-benchmarks = []
substrate-compat = []
[dependencies]
bstringify = "0.1.2"
serde = { version = "1.0.130", default-features = false, features = ["derive"] }
codec = { package = "parity-scale-codec", version = "3.1.5", default-features = false, features = ["derive", "max-encoded-len"] }
primitive-types = { version = "0.12.1", default-features = false, features = ["codec", "scale-info", "serde"] }
scale-info = { version = "2.2.0", default-features = false, features = ["derive"] }
sp-runtime = { path = "../../frame/sp-runtime" }
bitcoin = { path = "../../bitcoin" }
''')
mem = ['bitcoin', 'sym', 'h_bitcoin', 'unify'] + ['frame/' + x for x in sorted(os.listdir(f'{V}/ws/frame'))] + ['p/' + x for x in sorted(os.listdir(f'{V}/ws/p'))]
print(mem)
