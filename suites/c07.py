"""C07 code sinks: random histories against an abstract sink (list of (level, line))."""
import io
from pybindgen.typehandlers import codesink

RULE = 'random write/indent/unindent/flush histories over chains of sinks'
TEXTS = ['', 'a;', 'if (x) {', 'a\nb', '\n', 'x\n\ny', '  lead', 'tail  ', '\ttab', 'a\n', '\nb', 'a\n  b\nc', '%s', '{', 'é λ']


def expect_lines(level, text):
    return [' ' * level + l for l in text.split('\n')]


class Model:
    def __init__(self):
        self.level, self.stack, self.lines = 0, [], []

    def write(self, t):
        self.lines += expect_lines(self.level, t)


def norm(lines):
    # trailing blanks of a line are not significant (flush_to strips them)
    return [l.rstrip() for l in lines]


def run(S):
    rng = S.rng
    N = 3000 if not S.thorough else 30000
    for it in range(N):
        mem = [codesink.MemoryCodeSink() for _ in range(3)]
        models = [Model() for _ in range(3)]
        f = io.StringIO()
        fs = codesink.FileCodeSink(f)
        fm = Model()
        null = codesink.NullCodeSink()
        log = []
        ok = True

        def fail(what, detail):
            S.fail('history:' + what, what, detail, '\n'.join(map(str, log)))
        for step in range(rng.randrange(1, 14)):
            i = rng.randrange(4)
            real, mod = (mem[i], models[i]) if i < 3 else (fs, fm)
            op = rng.choice(['w', 'w', 'w', 'in', 'un', 'ft', 'fl', 'null'])
            if op == 'w':
                t = rng.choice(TEXTS) if rng.random() < .8 else '\n'.join(rng.choice(TEXTS) for _ in range(3))
                log.append((i, 'writeln', t))
                real.writeln(t)
                mod.write(t)
            elif op == 'in':
                k = rng.choice([4, 4, 2, 0, 1, 8])
                log.append((i, 'indent', k))
                if k == 4:
                    real.indent()
                else:
                    real.indent(k)
                mod.stack.append(mod.level)
                mod.level += k
            elif op == 'un':
                if mod.stack:
                    log.append((i, 'unindent'))
                    real.unindent()
                    mod.level = mod.stack.pop()
            elif op == 'ft' and i < 3:
                j = rng.choice([x for x in range(4) if x != i])
                log.append((i, 'flush_to', j))
                real.flush_to(mem[j] if j < 3 else fs)
                tgt = models[j] if j < 3 else fm
                for l in mod.lines:
                    tgt.lines += expect_lines(tgt.level, l.rstrip())
                mod.lines = []
            elif op == 'fl' and i < 3:
                log.append((i, 'flush'))
                r = real.flush()
                want = '\n'.join(' ' * mod.level + l for l in mod.lines) + '\n'
                if norm(r.split('\n')) != norm(want.split('\n')):
                    fail('flush returns each line once, in order, indented', 'got %r\nwant %r' % (r, want))
                mod.lines = []
            elif op == 'null':
                null.writeln('gone')
                null.indent()
                null.unindent()
                for meth, args in (('flush', ()), ('flush_to', (mem[0],))):
                    try:
                        getattr(null, meth)(*args)
                        fail('null sink keeps nothing', meth)
                    except TypeError:
                        pass
            for j in range(3):
                got = list(mem[j].lines) if hasattr(mem[j], 'lines') else None
        # final state by flushing everything
        for j in range(3):
            r = mem[j].flush()
            want = '\n'.join(' ' * models[j].level + l for l in models[j].lines) + '\n'
            if norm(r.split('\n')) != norm(want.split('\n')):
                fail('lines of a memory sink', 'sink %d got %r\nwant %r' % (j, r, want))
            r2 = mem[j].flush()
            if r2.strip('\n'):
                fail('flushing empties the sink', repr(r2))
        want = ''.join(l + '\n' for l in fm.lines)
        if norm(f.getvalue().split('\n')) != norm(want.split('\n')):
            fail('lines of a file sink', 'got %r\nwant %r' % (f.getvalue(), want))
        S.case(tuple(log) if len(log) > 2 else None, log if it < 3 else None)
    # trailing blanks survive a direct write (only flush_to may drop them)
    s = codesink.MemoryCodeSink()
    s.writeln('a  ')
    S.check(s.flush() == 'a  \n', 'direct trailing', 'a directly written line is delivered as written', '')
    # large histories
    s = codesink.MemoryCodeSink()
    d = codesink.MemoryCodeSink()
    for i in range(2000):
        s.writeln('line %d' % i)
    d.indent(3)
    s.flush_to(d)
    S.check(d.flush() == ''.join('   ' * 2 + 'line %d\n' % i for i in range(2000)), 'large', '2000 lines keep their order', '')
