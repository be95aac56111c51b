"""Contracts on functions that emit C: the real generator function is evaluated symbolically (pyvc) with arbitrary
names, and what it emits - a text made of literals and those names - is evaluated by the VC generator for C (minic),
on all paths and for all run-time inputs, against a contract on what the C code does.

Names are arbitrary but distinct: each symbolic name is rendered as an identifier of its own, so a result holds for
every choice of names that C++ accepts and that do not clash (C02)."""
import re
import z3
from pyvc.values import *
from minic.parser import Unit, ParseError
from minic.sym import Ctx, Exec, Unmodelled


class Names(object):
    """symbolic texts and the C text each stands for"""
    _pyvc_model = True

    def __init__(self, E):
        self._pyvc_eng = E
        self.of = {}

    def new(self, label, ctext=None):
        """an arbitrary text; ctext: the C expression or name it is rendered as"""
        s = self._pyvc_eng.str(label, nonempty=True)
        self.of[s.pieces[0].key] = ctext or label.upper()
        return s

    def text(self, v):
        if isinstance(v, str):
            return v
        if not isinstance(v, SStr):
            raise Unsupported('emitted text is not a string: %r' % (v,))
        out = []
        for p in v.pieces:
            if isinstance(p, str):
                out.append(p)
            elif p.key in self.of:
                out.append(self.of[p.key])
            else:
                raise Unsupported('emitted text with an unknown part: %r' % (p,))
        return ''.join(out)


class TextBlock(object):
    """contract model of a code block (C01, C02): statements in order, declared variables with names of their own,
    error checks that run the clean-ups registered so far and leave the function"""
    _pyvc_model = True

    def __init__(self, names, error='return NULL;', decls=None, label=''):
        self.names, self.error_return, self.label = names, error, label
        self.lines, self.decls = [], decls if decls is not None else []
        self.cleanups = {}
        self.count = 0
        self.declarations = self

    def add(self, text):
        names = self.names
        eng = names._pyvc_eng
        eng.interp.note_write(self.lines)
        self.lines.append(names.text(text))

    def write_code(self, text):
        self.add(text)

    def writeln(self, text=''):
        self.add(text)

    def indent(self, level=4):
        pass

    def unindent(self):
        pass

    def declare_variable(self, type_, name, initializer=None, array=None):
        n = self.names.text(name)
        if any(d[1] == n for d in self.decls):
            n += str(2 + len([d for d in self.decls if re.match(re.escape(n) + r'\d*$', d[1])]))
        self.decls.append((self.names.text(type_), n, None if initializer is None else self.names.text(initializer), None if array is None else self.names.text(array)))
        return n

    def reserve_variable(self, name):
        return name

    def get_cleanup(self):
        return [t for k, t in sorted(self.cleanups.items(), reverse=True)]

    def add_cleanup_code(self, text):
        self.count += 1
        self.cleanups[self.count] = self.names.text(text)
        return Handle(self, self.count)

    def write_cleanup(self):
        self.lines += self.get_cleanup()

    def write_error_check(self, cond, failure_cleanup=None):
        self.lines.append('if (%s) {' % self.names.text(cond))
        if failure_cleanup is not None:
            self.lines.append(self.names.text(failure_cleanup))
        self.write_error_return()
        self.lines.append('}')

    def write_error_return(self):
        self.lines += self.get_cleanup()
        self.lines.append(self.error_return)

    def sink(self):
        return self

    def body(self):
        ds = []
        for (t, n, i, a) in self.decls:
            ds.append('%s %s%s%s;' % (t, n, a or '', ' = ' + i if i is not None else ''))
        return '\n'.join(ds + self.lines)


class Handle(object):
    _pyvc_model = True

    def __init__(self, block, n):
        self.block, self.n = block, n

    def cancel(self):
        self.block.cleanups.pop(self.n, None)


def run(text, name='F', gil='held', **kw):
    """(evaluation of the C function, translation unit)"""
    try:
        u = Unit(text)
        f = u.func(name)
        if f is None:
            raise Unsupported('emitted text lost its function')
        return Exec(Ctx(u, **kw), f, gil).run(), u
    except (ParseError, Unmodelled) as e:
        raise Unsupported('emitted code cannot be evaluated: %s' % e)
