"""Compiling the real sources of /repo to IR, with the flags of the real build."""
import os, subprocess, hashlib, tempfile, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++-18'
PORT = '/opt/vp/port/include'
MODS = {'basiclog': ['basiclog', 'basicsys'], 'basicsys': ['basicsys', 'basiclog'], 'basicmath': ['basicmath', 'basicsys', 'basiclog'],
        'basicimg': ['basicimg', 'basicmath', 'basicsys', 'basiclog']}


def flags(mod):
    f = ['-std=c++11', '-stdlib=libc++', '-w', '-include', PORT + '/compat.h', '-I' + PORT]
    if not os.path.isdir(PORT):
        f = ['-std=c++11', '-stdlib=libc++', '-w']
    for m in MODS[mod]:
        f.append('-I%s/%s/include' % (REPO, m))
    f.append('-I%s/%s/src/stdafx' % (REPO, mod))
    f.append('-I%s/%s/src' % (REPO, mod))
    f.append('-I%s' % REPO)
    if mod == 'basicimg':
        f += ['-fms-extensions', '-isystem', REPO + '/basic_thrid_libs/lib_opencv/341/include']
    return f


def compile_ir(mod, src_text=None, src_file=None, extra=(), openmp=False, tmp=None):
    """-> IR text"""
    d = tempfile.mkdtemp(prefix='irv-', dir=tmp)
    try:
        if src_text is not None:
            src = os.path.join(d, 'driver.cpp')
            open(src, 'w').write(src_text.replace('@REPO@', REPO))
        else:
            src = os.path.join(REPO, src_file)
        out = os.path.join(d, 'o.ll')
        cmd = [CXX] + flags(mod) + ['-O0', '-g', '-fstandalone-debug', '-S', '-emit-llvm', '-fno-discard-value-names'] + list(extra) + (['-fopenmp'] if openmp else []) + [src, '-o', out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            return None, p.stderr[-4000:]
        return open(out).read(), ' '.join(cmd)
    finally:
        shutil.rmtree(d)
