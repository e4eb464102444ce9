import sys, os, re
lib = sys.argv[1]
def sub(path, pairs):
    p = os.path.join(lib, path)
    s = open(p).read()
    if '/*symx*/' in s: return
    for a, b in pairs:
        if a not in s: sys.exit(f'patch_std: {path}: pattern not found: {a!r}')
        s = s.replace(a, b, 1)
    open(p, 'w').write('/*symx*/\n' + s if not s.startswith('#!') and not s.startswith('//!') else s + '\n/*symx*/\n')
# HashMap keys may be symbolic: with a constant hash, lookups are decided by key equality alone.
sub('std/src/hash/random.rs', [('        self.0.write(msg)\n', '        let _ = msg;\n'), ('        self.0.write_str(s);\n', '        let _ = s;\n'), ('        self.0.finish()\n', '        0\n')])
# Files are in memory, standard output is kept, the working directory is "/".
here = os.path.dirname(os.path.abspath(__file__))
for a, b in (("fs.rs", "std/src/sys/fs/unsupported.rs"), ("stdio.rs", "std/src/sys/stdio/unsupported.rs")):
    open(os.path.join(lib, b), "w").write(open(os.path.join(here, "std", a)).read())
sub('std/src/sys/paths/unsupported.rs', [('pub fn getcwd() -> io::Result<PathBuf> {\n    unsupported()', 'pub fn getcwd() -> io::Result<PathBuf> {\n    Ok(PathBuf::from("/"))')])
sub('std/src/sys/path/unix.rs', [('if cfg!(any(unix, ', 'if cfg!(any(target_family = "wasm", unix, ')])
