#!/usr/bin/env python3
"""macros_lib.py OUT: /repo/macros as an ordinary library whose derive function can be called (and executed
symbolically): proc_macro stands for proc_macro2, and syn's entry points take its token streams."""
import sys, os, re, glob, shutil
out = sys.argv[1]; src = '/repo/macros/src'
shutil.rmtree(os.path.join(out, 'src'), ignore_errors=True)
os.makedirs(os.path.join(out, 'src'))
shim = os.path.relpath(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness-derive/synshim'), out)
for f in glob.glob(src + '/**/*.rs', recursive=True):
    s = open(f).read()
    n = re.search(r'#\s*\[\s*proc_macro_derive\s*\(\s*Actor\b[^\]]*\)\s*\](?:[^{;]|\s)*?\bfn\s+(\w+)', s)
    s = re.sub(r'#\s*\[\s*proc_macro_derive\s*\([^\]]*\)\s*\]', '', s)
    if os.path.relpath(f, src) == 'lib.rs':
        m = re.match(r'(\s*(//[^\n]*\n|#!\[[^\]]*\]\s*))*', s)
        s = s[:m.end()] + 'extern crate proc_macro2 as proc_macro;\n' + s[m.end():]
        s = re.sub(r'\bextern\s+crate\s+proc_macro\s*;', '', s)
    if n: s += f'\npub use {n.group(1)} as __derive_actor;\n'
    d = os.path.join(out, 'src', os.path.relpath(f, src)); os.makedirs(os.path.dirname(d), exist_ok=True)
    open(d, 'w').write(s)
open(os.path.join(out, 'Cargo.toml'), 'w').write(f'''[package]
name = "xtra-macros"
version = "0.6.0"
edition = "2021"
[dependencies]
syn = {{ path = "{shim}" }}
quote = {{ version = "1", default-features = false }}
proc-macro2 = {{ version = "1", default-features = false }}
[lints.rust]
''')
