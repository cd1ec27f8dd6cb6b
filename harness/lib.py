"""Access to the code under test (public API only) and small helpers."""
import contextlib
import io
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile

from harness.core import Violation


def load(name):
    """Import a module of the tree under test; failing to import is a violation."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return importlib.import_module('necroassembler.' + name if name else 'necroassembler')
    except Exception as exc:
        raise Violation('module %s cannot be imported: %r' % (name, exc), 'import')


na = load('')
exceptions = load('exceptions')
Assembler = na.Assembler
AssemblerException = exceptions.AssemblerException

CPU = {}
_CPU_WHERE = {
    '6502': ('cpu.mos6502', 'AssemblerMOS6502'),
    'lr35902': ('cpu.lr35902', 'AssemblerLR35902'),
    'z80': ('cpu.z80', 'AssemblerZ80'),
    '8086': ('cpu.intel8086', 'AssemblerIntel8086'),
    'x86': ('cpu.x86', 'AssemblerX86'),
    '68000': ('cpu.mc68000', 'AssemblerMC68000'),
    'mips32': ('cpu.mips32', 'AssemblerMIPS32'),
    'thumb': ('cpu.thumb', 'AssemblerThumb'),
    'ppc': ('cpu.powerpc', 'AssemblerPowerPC'),
    'gameboy': ('platforms.gameboy', 'AssemblerGameboy'),
    'nes': ('platforms.nes', 'AssemblerNES'),
    'sms': ('platforms.sms', 'AssemblerSegaMasterSystem'),
    'psx': ('platforms.psx', 'AssemberPSX'),
}


def _mode(bits):
    class Mode(cpu('x86')):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.assemble('.bits %d' % bits)
    return Mode


def cpu(name):
    if name not in CPU:
        if name.startswith('x86_'):
            CPU[name] = _mode(int(name[4:]))
            return CPU[name]
        mod, cls = _CPU_WHERE[name]
        CPU[name] = getattr(load(mod), cls)
    return CPU[name]


class Res:
    """Outcome of running the code under test."""
    __slots__ = ('ok', 'image', 'exc', 'asm')

    def __init__(self, ok, image=None, exc=None, asm=None):
        self.ok, self.image, self.exc, self.asm = ok, image, exc, asm

    def __repr__(self):
        if self.ok:
            return 'image ' + hexs(self.image)
        return 'error %s: %s' % (type(self.exc).__name__, str(self.exc)[:200])


def hexs(b, limit=64):
    if b is None:
        return 'None'
    b = bytes(b)
    return b.hex() if len(b) <= limit else b[:limit].hex() + '...(%d bytes)' % len(b)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def new(cls):
    try:
        return cls()
    except Exception as exc:
        raise Violation('cannot instantiate %s: %r' % (cls.__name__, exc))


def run(cls, text, link=True, prepare=None):
    """Assemble (and link) text with a fresh instance."""
    asm = new(cls)
    try:
        if prepare:
            prepare(asm)
        parts = [text] if isinstance(text, str) else text
        for p in parts:
            asm.assemble(p)
        if link:
            asm.link()
        return Res(True, bytes(asm.assembled_bytes), asm=asm)
    except Exception as exc:
        return Res(False, exc=exc, asm=asm)


def labels_of(asm):
    return {n: asm.get_label_absolute_address_by_name(n) for n in asm.labels}


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-necro-')
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def fail(msg, sig=None):
    raise Violation(msg, sig)


def expect_image(res, want, what, sig=None):
    if not res.ok:
        fail('%s: expected %s, got %r' % (what, hexs(want), res), sig)
    if res.image != bytes(want):
        fail('%s: expected %s, got %s' % (what, hexs(want), hexs(res.image)), sig)


def expect_error(res, what, sig=None):
    if res.ok:
        fail('%s: expected an error, got image %s' % (what, hexs(res.image)), sig)


def in_child(fn, *args):
    """Run fn in a forked copy of this process, so that nothing it does to classes or modules outlives it.
    fn returns something JSON can carry; a Violation travels too."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ['ok', fn(*args)]
            except Violation as v:
                out = ['violation', str(v), v.sig]
            except BaseException as e:
                from harness.core import from_repo
                out = ['error', repr(e), from_repo(e)]
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            text = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    out = json.loads(text) if text else ['error', 'child died']
    if out[0] == 'violation':
        raise Violation(out[1], out[2])
    if out[0] == 'error':
        exc = RuntimeError('child: ' + out[1])
        exc.from_repo, exc.text = out[2:] == [True], out[1]
        raise exc
    return out[1]


def content(path):
    """the bytes of a file, None when it does not exist"""
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None
