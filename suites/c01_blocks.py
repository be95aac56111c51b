"""C01 at the level of CodeBlock: random histories over chains of blocks against a model."""
from pybindgen.typehandlers.base import CodeBlock, DeclarationsScope


def run(S):
    rng = S.rng
    N = 1500 if not S.thorough else 15000
    for it in range(N):
        depth = rng.randrange(1, 4)
        decl = DeclarationsScope()
        blocks, models = [], []
        for d in range(depth):
            er = 'return ERR%d;' % d
            blocks.append(CodeBlock(er, decl, predecessor=blocks[-1] if blocks else None))
            models.append(dict(er=er, live=[], out=[], handles={}))
        log = []
        n = 0

        def live(d):
            out = []
            while d >= 0:
                out += [c for (h, c) in reversed(models[d]['live'])]
                d -= 1
            return out
        steps = rng.randrange(1, 60) if it % 5 == 0 else rng.randrange(1, 14)
        for step in range(steps):
            d = rng.randrange(depth)
            b, m = blocks[d], models[d]
            op = rng.choice(['add'] * 5 + ['cancel'] * 2 + ['check', 'check', 'cleanup', 'ret', 'code', 'get'])
            if op == 'add':
                n += 1
                # texts repeat and sort differently from their order of registration
                t = rng.choice(['Py_DECREF(x%d);' % n, 'free(p);', 'z%d();' % (1000 - n), 'a();'])
                log.append((d, 'add_cleanup_code', t))
                h = b.add_cleanup_code(t)
                m['live'].append((h, t))
            elif op == 'cancel' and m['live']:
                k = rng.randrange(len(m['live']))
                h, t = m['live'].pop(k)
                log.append((d, 'cancel', k, t))
                if rng.random() < .5:
                    h.cancel()
                else:
                    b.remove_cleanup_code(h)
            elif op == 'check':
                fc = rng.choice([None, None, 'FAIL%d();' % n])
                log.append((d, 'write_error_check', fc))
                if fc is None:
                    b.write_error_check('bad(%d)' % step)
                else:
                    b.write_error_check('bad(%d)' % step, fc)
                m['out'] += ['if (bad(%d)) {' % step] + ['    ' + x for x in ([fc] if fc else []) + live(d) + [m['er']]] + ['}']
            elif op == 'cleanup':
                log.append((d, 'write_cleanup'))
                b.write_cleanup()
                m['out'] += live(d)
            elif op == 'ret':
                log.append((d, 'write_error_return'))
                b.write_error_return()
                m['out'] += live(d) + [m['er']]
            elif op == 'code':
                b.write_code('code%d;' % step)
                m['out'].append('code%d;' % step)
            elif op == 'get':
                got = b.get_cleanup_code()
                if got != live(d):
                    S.fail('history:get', 'live cleanups, newest first, own before predecessor',
                           'block %d got %r want %r' % (d, got, live(d)), '\n'.join(map(str, log)))
                got.append('spoil')     # the caller owns the list it was given
        for d in range(depth):
            got = blocks[d].sink.flush()
            want = '\n'.join(models[d]['out']) + '\n'
            if got != want:
                S.fail('history:text', 'emitted exits carry exactly the live cleanups, newest first',
                       'block %d got:\n%s\nwant:\n%s' % (d, got, want), '\n'.join(map(str, log)))
            if rng.random() < .3:
                blocks[d].clear()
                models[d]['live'] = []
                got = blocks[d].get_cleanup_code()
                if got != live(d):
                    S.fail('history:clear', 'clear forgets the cleanups of the block', repr(got), '\n'.join(map(str, log)))
        S.case(tuple(log) if len(log) > 2 else None, log if it < 3 else None)
