"""Contracts of the type handlers of pybindgen/typehandlers: each handler, as a parameter in each of its directions and as
a return value, in wrappers (C++ called from Python) and in overrides (Python called from C++), is evaluated alone with an
arbitrary name, default value and const; what it adds - variables, parse units, statements before and after the call,
arguments, result units - is put into the frame that generate_body and generate_python_call are proved to emit (C03, C04,
C09, C12, C13: the parse call, the call, the clean-ups and the result built from the tables), and evaluated on all paths."""
import inspect
import z3
from pyvc.values import *
from . import ctext, wrap
from pybindgen.typehandlers import base, ctypeparser
from pybindgen.typehandlers.base import Parameter, ReturnValue, ForwardWrapperBase, ReverseWrapperBase, param_type_matcher, return_type_matcher

KNOWN = ['Glib::ustring', 'TARGET', 'DEFAULT', 'PYTHON_CALL', 'INT_MIN', 'LONG_MIN']
BUILTIN = 'pybindgen.typehandlers.'


def handlers(kind):
    """(type, handler class) registered for the builtin types, in a fixed order"""
    m = param_type_matcher if kind == 'param' else return_type_matcher
    return sorted([(t, c) for t, c in m._types.items() if c.__module__.startswith(BUILTIN)], key=lambda x: x[0])


class Parse(object):
    """contract model of the parse table (C03)"""
    _pyvc_model = True

    def __init__(self, E):
        self._pyvc_E = E
        self.items = []

    def clear(self):
        pass

    def add_parameter(self, param_template, param_values, param_name=None, prepend=False, optional=False):
        it = (param_template, list(param_values), param_name, self._pyvc_E.interp.truth(optional), bool(prepend))
        self.items.insert(0, it) if prepend else self.items.append(it)
        return len(self.items)


class Build(object):
    """contract model of the build table (C04)"""
    _pyvc_model = True

    def __init__(self, block=None):
        self.items = []

    def clear(self):
        pass

    def add_parameter(self, param_template, param_values, prepend=False, cancels_cleanup=None):
        it = (param_template, list(param_values), cancels_cleanup, bool(prepend))
        self.items.insert(0, it) if prepend else self.items.append(it)


class Frame(object):
    """the wrapper around one handler"""
    _pyvc_model = True

    def init(self, E, w, blocks, error):
        self._pyvc_w = w
        self.declarations = wrap.GhostScope(w)
        prev = None
        for b in blocks:
            blk = wrap.GhostBlock(w, error, self.declarations, prev)
            setattr(self, b, blk)
            prev = blk
        self.parse_params, self.build_params = Parse(E), Build()
        self.call_params = []
        self.transfers = []
        self.function_name = 'TARGET'


class Forward(Frame, wrap.handler_class(ForwardWrapperBase, 'FwdBase')):
    def __init__(self, E, w):
        self.init(E, w, ('before_parse', 'before_call', 'after_call'), 'return NULL;')


class Reverse(Frame, wrap.handler_class(ReverseWrapperBase, 'RevBase')):
    def __init__(self, E, w, error):
        self.init(E, w, ('before_call', 'after_call'), error)


class Case(object):
    """one handler, in one position"""
    inplace = False
    filled = False      # an output object is given to an override to be filled in

    def __init__(self, E, kind, forward, filt=None):
        self.E, self.kind, self.forward = E, kind, forward
        hs = [(t, c) for t, c in handlers(kind) if filt is None or filt(t, c)]
        self.ctype, self.cls = hs[E.choose(len(hs), 'handler')]
        if E.choose(2, 'const'):
            self.ctype = 'const ' + self.ctype
        self.w = wrap.World(E)
        self.kw = {}
        sig = [p for p in inspect.signature(self.cls.__init__).parameters]
        self.direction = None
        if kind == 'param' and 'direction' in sig:
            self.direction = self.cls.DIRECTIONS[E.choose(len(self.cls.DIRECTIONS), 'direction')]
            self.kw['direction'] = self.direction
        else:
            self.direction = 1
        for o, values in (('array_length', [None, 1, 3]), ('transfer_ownership', [False, True]), ('caller_owns_return', [False, True]), ('free_after_copy', [None, True] if kind == 'return' else [None])):
            if o in sig and len(values) > 1:
                v = values[E.choose(len(values), o)]
                if v is not None:
                    self.kw[o] = v
        self.default = None
        if 'default_value' in sig and self.direction & 1 and forward:
            c = E.choose(3 if self.ctype.endswith('*') else 2, 'default')
            if c:
                self.default = 'NULL' if c == 2 else self.w.names.new('default', 'DEFAULT')
                self.kw['default_value'] = self.default
        self.name = self.w.names.new('name', 'NAME')
        traits = ctypeparser.TypeTraits(self.ctype)
        if kind == 'param':
            k, h = E.outcome(self.cls, traits, self.name, **self.kw)
        else:
            k, h = E.outcome(self.cls, traits, **self.kw)
        self.made = k == 'ok'
        self.h = h

    def __repr__(self):
        return '%s %s %s' % (self.cls.__name__, self.ctype, ' '.join('%s=%s' % (k, self.w.names.text(v) if isinstance(v, SStr) else v) for k, v in sorted(self.kw.items(), key=lambda x: x[0])))

    def convert(self):
        E, w = self.E, self.w
        if self.forward:
            self.wr = Forward(E, w)
            self.wr.declarations.declare_variable('PyObject *', 'py_retval')
            f = self.cls.convert_python_to_c if self.kind == 'param' else self.cls.convert_c_to_python
        else:
            err = 'return;'
            if self.kind == 'return':
                k, err = E.outcome(self.cls.get_c_error_return, self.h)
                if k != 'ok':
                    return False
            self.wr = Reverse(E, w, err)
            self.wr.declarations.declare_variable('PyObject *', 'py_retval')
            f = self.cls.convert_c_to_python if self.kind == 'param' else self.cls.convert_python_to_c
        if self.kind == 'return':
            if self.forward or not self.h.NO_RETVAL_DECL:
                self.wr.declarations.reserve_variable('retval')
        elif not self.forward:
            self.wr.declarations.reserve_variable(self.name)
        k, r = E.outcome(f, self.h, self.wr)
        if k != 'ok' and not isinstance(r, (base.CodegenErrorBase, NotImplementedError, AssertionError)):
            E.prove('a conversion is made or refused', False, '%r: %r' % (self, r))
        return k == 'ok'

    def text(self):
        t = self.w.names.text
        wr = self.wr
        L = []
        ct = self.ctype
        void = self.kind == 'return' and ct.split()[-1] == 'void'
        C = lambda b: getattr(wr, b).sink.ctext()
        parse = [(t(a), [t(x) for x in b]) for a, b, n, o, p in wr.parse_params.items]
        build = [(t(a), [t(x) for x in b]) for a, b, c, p in wr.build_params.items]
        opt = [i for i, it in enumerate(wr.parse_params.items) if it[3]]
        fmt = ''.join(('|' if opt and i == opt[0] else '') + a for i, (a, b) in enumerate(parse))
        dests = [x for a, b in parse for x in b]
        self.units = len(parse)
        decls = wr.declarations.get_code_sink().ctext()
        clean = lambda b: '\n'.join(t(x) for x in getattr(wr, b).get_cleanup_code())
        if self.forward:
            L = ['PyObject *F(PyObject *self, PyObject *args, PyObject *kwargs)', '{', decls]
            L.append(C('before_parse'))
            if parse:
                L.append('if (!PyArg_ParseTuple(args, (char *) "%s"%s)) {\n%s\nreturn NULL;\n}' % (fmt, ''.join(', ' + x for x in dests), clean('before_parse')))
            L.append(C('before_call'))
            for tr in wr.transfers:
                blk = wrap.GhostBlock(self.w, 'return NULL;', wr.declarations)
                self.E.call(tr, blk)
                L.append(blk.sink.ctext())
            if self.kind == 'return':
                L.append(self.call_line(ct, void))
            else:
                L.append('TARGET(%s);' % ', '.join(t(x) for x in wr.call_params))
            L.append(C('after_call'))
            for a, b, c, p in wr.build_params.items:
                if c is not None:
                    c.cancel()
            if build:
                L.append('py_retval = Py_BuildValue((char *) "%s", %s);' % (''.join(a for a, b in build), ', '.join(x for a, b in build for x in b)))
            else:
                L.append('Py_INCREF(Py_None);\npy_retval = Py_None;')
            L.append(clean('after_call'))
            L.append('return py_retval;\n}')
        else:
            args = '%s NAME' % ct if self.kind == 'param' else ''
            L = ['%s F(%s)' % ('void' if self.kind == 'param' else ct, args), '{', decls]
            if self.kind == 'return' and not void and not self.h.REQUIRES_ASSIGNMENT_CONSTRUCTOR and not self.h.NO_RETVAL_DECL:
                L.append('%s retval;' % ct.replace('const ', ''))
            L.append(C('before_call'))
            vals = ''.join(', ' + x for a, b in build for x in b)
            L.append('py_retval = PyObject_CallMethod(SELF, (char *) "m", (char *) "%s"%s);' % (''.join(a for a, b in build), vals))
            L.append('if (py_retval == NULL) {\nPyErr_Print();\n%s\n%s\n}' % (clean('before_call'), t(wr.before_call.error_return)))
            if parse:
                L.append('if (!PyArg_ParseTuple(py_retval, (char *) "%s"%s)) {\nPyErr_Print();\n%s\n%s\n}' % (fmt, ''.join(', ' + x for x in dests), clean('before_call'), t(wr.before_call.error_return)))
            L.append(C('after_call'))
            L.append(clean('after_call'))
            L.append('return%s;\n}' % (' retval' if self.kind == 'return' and not void else ''))
        return '\n'.join(x for x in L if x) + '\n'

    def call_line(self, ct, void):
        return '%sTARGET();' % ('' if void else ct + ' retval = ')

    def evaluate(self):
        self.c = self.text()
        self.ex, self.u = ctext.run(self.c, 'F', known=self.known())
        return self.ex

    def known(self):
        return KNOWN + ['SELF']
