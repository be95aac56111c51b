"""C types as the target platform (x86-64 Linux, gcc) sees them"""
import re

INTS = {
    'bool': (8, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'int8_t': (8, True), 'uint8_t': (8, False), 'int16_t': (16, True), 'uint16_t': (16, False),
    'int32_t': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True), 'uint64_t': (64, False),
    'size_t': (64, False), 'ssize_t': (64, True), 'Py_ssize_t': (64, True), 'wchar_t': (32, True), 'time_t': (64, True),
}


def norm(t):
    """canonical spelling: spaces only between words; const order kept as written except leading const"""
    t = re.sub(r'\s+', ' ', t.strip())
    t = re.sub(r'\s*(::|<|>|,|\*|&)\s*', r'\1', t)
    t = re.sub(r'\b(static|inline|extern|virtual|struct|class|typename|volatile)\b ?', '', t)
    t = re.sub(r'(?<![\w>])const ?([\w:]+(?:<.*>)?(?: \w+)*)$', r'\1 const', t) if t.startswith('const ') and '*' not in t and '&' not in t else t
    m = re.match(r'^const ((?:\w|::|<[^*&]*>| )+?)([*&].*)?$', t)
    if m:
        t = m.group(1).strip() + ' const' + (m.group(2) or '')
    return t.strip()


def strip_const(t):
    return re.sub(r'\s+', ' ', re.sub(r'\bconst\b', '', t)).strip().replace(' *', '*').replace(' &', '&').replace('* ', '*')


def base_int(t):
    """(bits, signed) for an integer type spelling, or None"""
    t = strip_const(norm(t)).strip()
    if t in INTS:
        return INTS[t]
    w = t.split()
    if w and all(x in ('unsigned', 'signed', 'short', 'long', 'int', 'char') for x in w):
        uns = 'unsigned' in w
        if 'char' in w:
            return (8, not uns)
        if 'short' in w:
            return (16, not uns)
        if 'long' in w:
            return (64, not uns)
        return (32, not uns)
    return None


def irange(bits, signed):
    if signed:
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return (0, (1 << bits) - 1)
