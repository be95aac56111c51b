"""Contracts of containers (pybindgen/container.py): a container of the real constructor, with arbitrary names; its handlers
as parameters and results, what iterates, destroys, makes and converts it - evaluated on all paths."""
from pyvc.values import *
from . import ctext, wrap, hworld
from .cworld import GhostModule, Failures, G
from suites import corpus
from pybindgen import container
from pybindgen.container import Container
from pybindgen.typehandlers import base, ctypeparser
from pybindgen.typehandlers.base import ReturnValue

BOX, PYB, ITB, CONV = 'CN1', 'PyCN1', 'PyCN1Iter', '_wrap_convert_py2c__CN1'
ITEMC, KEYC = '_wrap_convert_py2c__IT1', '_wrap_convert_py2c__KT1'
KNOWN = hworld.KNOWN + ['SELF', BOX, PYB, ITB, 'IT1', 'KT1', 'std', 'pair', 'begin', 'end', 'insert', 'push_back', 'push', 'push_front', 'tp_free', 'ADD']


class Root(object):
    """the module: converters by the type they convert to"""
    _pyvc_model = True

    def __init__(self, box):
        self.box = box
        self.asked = []

    def get_root(self):
        return self

    def get_python_to_c_type_converter_function_name(self, value_type):
        return self.box.conv

    def generate_python_to_c_type_converter(self, value_type, code_sink):
        self.asked.append(value_type)
        return ITEMC if value_type is self.box.value else KEYC

    def declare_one_time_definition(self, name):
        return True


class BoxReturn(object):
    """the handler of the container, where only its type is asked for"""
    _pyvc_model = True

    def __init__(self, E, ctype):
        self.ctype = ctype


class Box(object):
    _pyvc_model = True

    def __init__(self, E, w, mapping=False, value='int', key='int', kind=None):
        n = w.names
        self.w = w
        c = Container('CN1', (key, value) if mapping else value, kind or ('map' if mapping else 'vector'))
        self.box = c
        c.full_name = n.new('full_name', BOX)
        c._full_name_is_definitive = True
        c._pystruct = n.new('pystruct', PYB)
        c.pytypestruct = n.new('pytypestruct', PYB + '_Type')
        c._iter_pystruct = n.new('iter_pystruct', ITB)
        c.iter_pytypestruct = n.new('iter_pytypestruct', ITB + '_Type')
        self.conv = c.python_to_c_converter = n.new('converter', CONV)
        self.value = c.value_type
        self.key = c.key_type
        c._module = Root(self)
        c.custom_name = 'Box'

    def unit(self, text):
        return ('class %s;\ntypedef struct {\n    PyObject_HEAD\n    %s *obj;\n} %s;\ntypedef struct {\n    PyObject_HEAD\n    %s *container;\n    %s::iterator *iterator;\n} %s;\n'
                'extern PyTypeObject %s_Type;\nextern PyTypeObject %s_Type;\nint %s(PyObject *arg, %s *container);\nint %s(PyObject *arg, IT1 *v);\nint %s(PyObject *arg, KT1 *v);\n' % (
                    BOX, BOX, PYB, PYB, BOX, ITB, PYB, ITB, CONV, BOX, ITEMC, KEYC)) + text


class BoxCase(hworld.Case):
    """one handler of a container, in one position"""
    _pyvc_model = True
    filled = True

    def __init__(self, E, kind, forward):
        self.E, self.kind, self.forward = E, kind, forward
        self.w = wrap.World(E)
        n = self.w.names
        self.k = k = Box(E, self.w)
        c = k.box
        self.inplace, self.default, self.kw = False, None, {}
        if kind == 'param':
            self.form, self.ctype, self.cls = [('val', BOX, c.ThisContainerParameter), ('ref', BOX + ' &', c.ThisContainerRefParameter), ('ptr', BOX + ' *', c.ThisContainerPtrParameter)][E.choose(3, 'form')]
            self.direction = self.cls.DIRECTIONS[E.choose(len(self.cls.DIRECTIONS), 'direction')]
            self.kw['direction'] = self.direction
            if self.form == 'ptr':
                t = [None, False, True][E.choose(3, 'transfer_ownership')]
                if t is not None:
                    self.kw['transfer_ownership'] = t
            if forward and self.direction & 1 and self.form == 'ref' and E.choose(2, 'default'):
                self.default = n.new('default', 'DEFAULT')
                self.kw['default_value'] = self.default
        else:
            self.direction = 1
            self.form, self.ctype, self.cls = [('val', BOX, c.ThisContainerReturn), ('ref', BOX + ' &', c.ThisContainerReturn)][E.choose(2, 'form')]
        if self.form != 'val' and self.direction == 1 and E.choose(2, 'const'):
            self.ctype = 'const ' + self.ctype
        self.hcls = self.cls
        tr = ctypeparser.TypeTraits(self.ctype)
        if kind == 'param':
            self.name = n.new('name', 'NAME')
            kk, h = E.outcome(self.cls, tr, self.name, **self.kw)
        else:
            kk, h = E.outcome(self.cls, tr, **self.kw)
        self.made, self.h = kk == 'ok', h
        if kk != 'ok' and not isinstance(h, (base.CodegenErrorBase, NotImplementedError, AssertionError)):
            E.prove('a handler is made or refused', False, repr(h))

    def text(self):
        self.body = hworld.Case.text(self)
        return self.k.unit(self.body)

    def known(self):
        return KNOWN
