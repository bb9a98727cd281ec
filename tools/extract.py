#!/usr/bin/env python3
"""Mechanical extraction: copies /repo/src into a crate whose `std` and dependencies are the
assumed contracts of /verif/model.  The text of the code is kept; the only rewriting is

  * the path prefix `std::` / `core::` becomes `mstd::` (the facade over the real std),
  * the prelude names `Vec` and `vec!` become `mstd::vec::Vec` and `mstd::vec_!`,
  * `Duration::from_millis` (micros, nanos) in a `const` or `static` item becomes its const form in the facade,
  * for the configurations of other operating systems, `target_os = "..."` predicates are
    resolved for that system (cfg predicates only),
  * `pub mod verif_harness;` is appended to lib.rs.

Comments and string literals are left alone by the tokenizer below.
"""
import os, re, shutil, sys

TOK = re.compile(r'''
    (?P<line>//[^\n]*) |
    (?P<block>/\*.*?\*/) |
    (?P<raw>b?r(\#*)".*?"\4) |
    (?P<str>b?"(?:\\.|[^"\\])*") |
    (?P<char>'(?:\\.[^']*|[^'\\])') |
    (?P<path>(?<![\w:$])(?:::\s*)?(?:std|core)(?=\s*::)) |
    (?P<vecm>(?<![\w:$])vec!(?=\s*[\[(])) |
    (?P<vec>(?<![\w:$])Vec\b(?=\s*(?:<|::))) |
    (?P<word>\w+) |
    (?P<rest>.)
''', re.S | re.X)


def rewrite_paths(src):
    out = []
    for m in TOK.finditer(src):
        if m.group('path'):
            out.append('mstd')
        elif m.group('vecm'):
            out.append('mstd::vec_!')
        elif m.group('vec'):
            out.append('mstd::vec::Vec')
        else:
            out.append(m.group(0))
    return re.sub(r'(\b(?:const|static)\s+\w+\s*:\s*(?:\w+\s*::\s*)*Duration\s*=\s*(?:\w+\s*::\s*)*Duration\s*::\s*from_(?:millis|micros|nanos))\b',
                  r'\1_const', ''.join(out))


OS_LIST = {
    'epoll': None,
    'epoll-pipe': None,
    'poll': None,
    'kqueue': ('freebsd', 'unix'),
    'kqueue-netbsd': ('netbsd', 'unix'),
    'port': ('illumos', 'unix'),
    'epoll-redox': ('redox', 'unix'),
}


def rewrite_os(src, osname):
    def f(m):
        return 'all()' if m.group(1) == osname else 'any()'
    src = re.sub(r'target_os\s*=\s*"([^"]*)"', f, src)
    src = re.sub(r'target_vendor\s*=\s*"([^"]*)"', 'any()', src)
    return src


def extract(repo, dst, cfg, harness_dir, model_dir, kani=True, only=None):
    srcd = os.path.join(repo, 'src')
    if os.path.isdir(dst):
        for n in ('src',):
            p = os.path.join(dst, n)
            if os.path.isdir(p):
                shutil.rmtree(p)
    os.makedirs(os.path.join(dst, 'src'), exist_ok=True)
    osx = OS_LIST[cfg]
    n = 0
    for root, dirs, files in os.walk(srcd):
        for fn in files:
            if not fn.endswith('.rs'):
                continue
            p = os.path.join(root, fn)
            rel = os.path.relpath(p, srcd)
            s = open(p).read()
            s = rewrite_paths(s)
            if osx:
                s = rewrite_os(s, osx[0])
            if rel == 'lib.rs':
                s += '\n#[cfg(any(kani, verif_replay))]\npub mod verif_harness;\n'
            d = os.path.join(dst, 'src', rel)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            open(d, 'w').write(s)
            n += 1
    hd = os.path.join(dst, 'src', 'verif_harness')
    os.makedirs(hd)
    mods = [only] if only else sorted(f[:-3] for f in os.listdir(harness_dir) if re.match(r'c\d\d\.rs$', f))
    for m in mods + ['pre']:
        shutil.copy(os.path.join(harness_dir, m + '.rs'), hd)
    with open(os.path.join(hd, 'mod.rs'), 'w') as f:
        f.write(open(os.path.join(harness_dir, 'mod.rs')).read())
        f.write(''.join('pub mod %s;\n' % m for m in mods))
        f.write('pub const LISTS: &[&[(&str, fn())]] = &[%s];\n' % ', '.join(m + '::LIST' for m in mods))
    if not kani:
        shutil.copy(os.path.join(harness_dir, 'x.rs'), hd)
        shutil.copy(os.path.join(harness_dir, 'hist.rs'), hd)
        open(os.path.join(hd, 'mod.rs'), 'a').write('pub mod x;\npub mod hist;\n')
        os.makedirs(os.path.join(dst, 'src', 'bin'), exist_ok=True)
        shutil.copy(os.path.join(harness_dir, 'replay_main.rs'), os.path.join(dst, 'src', 'bin', 'replay.rs'))
    feats = 'features = ["kani"], ' if kani else ''
    open(os.path.join(dst, 'Cargo.toml'), 'w').write(f'''[package]
name = "polling"
version = "3.7.4"
edition = "2021"

[workspace]

[lib]
path = "src/lib.rs"

[features]
deep = []

[lints.rust]
unexpected_cfgs = "allow"
static_mut_refs = "allow"
unused = "allow"

[dependencies]
cfg-if = "1"
ghost = {{ {feats}path = "{model_dir}/ghost" }}
mstd = {{ {feats}path = "{model_dir}/mstd" }}
tracing = {{ path = "{model_dir}/tracing" }}
rustix = {{ {feats}path = "{model_dir}/rustix" }}
''')
    return n


if __name__ == '__main__':
    repo, dst, cfg = sys.argv[1:4]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    n = extract(repo, dst, cfg, os.path.join(here, 'harness'), os.path.join(here, 'model'))
    print(n, 'files')
