"""What each property's check does."""
import json, random
import suites as S


def rng(ctx, k=0):
    return random.Random(ctx.seed * 7919 + k)


def q(ctx, quick, thorough):
    return quick if ctx.quick() else thorough


NOTE = ['The Java runtime supplies the string form and identity of objects and the zone offset in force; the specification takes them as observed inputs.']


GRAMMAR_ARGS = ',"a":' + json.dumps([dict(t='int', neg=n < 0, m=[abs(n)], prim=1) for n in (3, 2, 77, -4, 65, 1, 12, 5)])


def functional(*families, models=(), before=None):
    """Models whose behaviours are replayed, then generated calls that TLC validates."""
    def plan(ctx):
        ctx.build(['seq'])
        for m in models:
            module, cfg = m[0], m[0] + '_' + m[1]
            if module in ('MC_Date', 'MC_Matrix', 'MC_Limit'):
                cfg = q(ctx, module + '_quick', module + '_deep')
            elif not ctx.quick():
                cfg += '_deep'
            ctx.model_replay(module, cfg, add=GRAMMAR_ARGS if module == 'MC_Grammar' else None)
        if before:
            before(ctx)
        for i, (name, fam, nq, nt) in enumerate(families):
            cases = S.number(fam(rng(ctx, i), q(ctx, nq, nt)), name)
            ctx.check_cases(cases, name)
        return 'model_checking', NOTE, {}
    return plan


ENGLISH = ()
LOCALES = {'tr': ('-Dvp.locale=tr-TR', '-Duser.timezone=Asia/Kolkata'),
           'ar': ('-Dvp.locale=ar-EG-u-nu-arab', '-Duser.timezone=America/St_Johns'),
           'th': ('-Dvp.locale=th-TH-u-ca-buddhist-nu-thai', '-Duser.timezone=Pacific/Apia'),
           'de': ('-Dvp.locale=de-CH',),
           'hi': ('-Dvp.locale=hi-IN-u-nu-deva', '-Duser.timezone=Australia/Lord_Howe'),
           'lt': ('-Dvp.locale=lt-LT',), 'fa': ('-Dvp.locale=fa-IR-u-nu-arabext',)}
EBCDIC, UTF16 = ('-Dfile.encoding=IBM037',), ('-Dfile.encoding=UTF-16BE',)
JDKS = (8, 11, 17, 21, 25)


def same_everywhere(ctx, models, cases, grid, name):
    """Replays model behaviours and calls on every runtime of the grid; each outcome must be the specified one."""
    path = ctx.p(name + '.models')
    with open(path, 'w') as f:
        for module, cfg in models:
            cfg = module + '_' + cfg + q(ctx, '', '_deep')
            for l in ctx.emitted_raw(ctx.model(module, cfg)['out']):
                f.write(l + '\n')
    for jdk, opts in grid:
        ctx.replay(path, name, jdk=jdk, opts=opts, mode='nosinks', keep=True)
    # recorded calls: the distinct ones over all runtimes are validated by TLC
    seen, out, n = set(), ctx.p(name + '.all'), 0
    with open(out, 'w') as f:
        for jdk, opts in grid:
            tr = ctx.run_cases(cases, name, jdk=jdk, opts=opts, mode='nosinks')
            for line in open(tr):
                n += 1
                if line not in seen:
                    seen.add(line)
                    if len(seen) > len(cases):
                        e = json.loads(line)
                        e['id'] = '%s-jdk%d%s-%d' % (e['id'], jdk, '-'.join(o[-5:] for o in opts), n)
                        line = json.dumps(e) + '\n'
                    f.write(line)
    ctx.log('%d calls on %d runtimes, %d distinct' % (n, len(grid), len(seen)))
    ctx.validate(out, name)


def runtimes(ctx):
    ctx.build(['seq'])
    models = [('MC_Directive', c) for c in ('layout', 'shortest', 'round', 'general', 'hex', 'bigdec', 'text')]
    if not ctx.quick():
        models.append(('MC_Directive', 'ints'))
    cases = [c for c in S.number(S.mixed(rng(ctx), q(ctx, 5000, 40000)), 'mixed') + S.number(S.texts(rng(ctx, 1), q(ctx, 2500, 20000)), 'text')
             if not any(u in c['f'] for u in (116, 84, 112)) and not c.get('tz')]
    if ctx.quick():
        grid = [(8, LOCALES['tr']), (11, LOCALES['ar'] + EBCDIC), (17, LOCALES['th'] + UTF16), (21, LOCALES['de']), (25, LOCALES['hi']), (21, LOCALES['tr']), (8, LOCALES['fa'] + EBCDIC)]
    else:
        grid = [(j, o) for j in JDKS for o in [ENGLISH, EBCDIC, UTF16] + list(LOCALES.values())]
    same_everywhere(ctx, models, cases, grid, 'runtimes')
    return 'model_checking', NOTE, {}


def shortest(ctx):
    ctx.build(['seq'])
    cases = S.number(S.shortest(rng(ctx), q(ctx, 4000, 60000)), 'shortest')
    same_everywhere(ctx, [('MC_Directive', 'shortest')], cases, [(j, ENGLISH) for j in JDKS], 'shortest')
    return 'model_checking', NOTE, {}


def readers(ctx):
    for fault in ('inplace', 'poison'):
        ctx.expect_violation('Readers', 'Readers_' + fault, 'Whole')
    r = ctx.model('Readers', 'Readers_all' + q(ctx, '', '_deep'), 'two readers of a supplied sequence, every short schedule')
    ctx.drive('vp.ReadersDrive', ctx.emitted_raw(r['out']), 'readers', timeout=3000)
    r = ctx.model('Readers', 'Readers_sim', 'three readers, random schedules of 16 actions', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 2500, 40000), '-depth', '18', '-seed', str(ctx.seed)], timeout=3000)
    ctx.drive('vp.ReadersDrive', ctx.emitted_raw(r['out']), 'reader3', timeout=3000)


def rope(ctx):
    ctx.build(['seq'])
    readers(ctx)
    r = ctx.model('Rope', 'Rope_all', 'every history of two operations')
    lines = list(ctx.emitted_raw(r['out']))
    ctx.drive('vp.RopeDrive', lines, 'rope2')
    if not ctx.quick():
        r = ctx.model('Rope', 'Rope_all3', 'every history of three operations')
        ctx.drive('vp.RopeDrive', ctx.emitted_raw(r['out']), 'rope3', timeout=3000)
    n = q(ctx, 6000, 60000)
    r = ctx.model('Rope', 'Rope_sim', 'random histories of 14 operations', workers=1,
                  opts=['-simulate', 'num=%d' % n, '-depth', '16', '-seed', str(ctx.seed)])
    lines = list(ctx.emitted_raw(r['out']))
    ctx.drive('vp.RopeDrive', lines, 'rope14')
    tall = list(ctx.emitted_raw(ctx.model('RopeTall', note='very deep ropes')['out']))
    ctx.drive('vp.TallDrive', tall, 'tall')
    for jdk in (8, 17):
        ctx.drive('vp.RopeDrive', lines[:len(lines) // 3], 'rope14', jdk=jdk)
    return 'model_checking', [], {}


def options(ctx):
    ctx.build(['seq'])
    cfg = q(ctx, 'Options_4', 'Options_5')
    r = ctx.model('Options', cfg, 'every history of option requests up to this length')
    ctx.drive('vp.OptionsDrive', ctx.emitted_raw(r['out']), cfg, timeout=2000)
    ctx.check_cases(S.number(S.mixed(rng(ctx), q(ctx, 6000, 60000)), 'mixed'), 'mixed', mode='options')
    ctx.check_cases(S.number(S.limits(rng(ctx, 2), q(ctx, 120, 1500)), 'large'), 'large', mode='options')
    ctx.check_cases(S.number(S.long_texts(rng(ctx, 3)), 'long'), 'long', mode='options')
    ctx.check_cases(S.number(S.many_pieces(rng(ctx, 4), q(ctx, (257, 1025, 5000), (257, 1025, 2049, 5000, 10000, 16400))), 'many'), 'many', mode='options')
    return 'model_checking', NOTE, {}


def arglist(ctx):
    ctx.build(['seq', 'args'])
    r = ctx.model('ArgList', 'ArgList_all', 'every history of three operations on one list')
    ctx.drive('vp.ArgsDrive', ctx.emitted_raw(r['out']), 'args3')
    if not ctx.quick():
        r = ctx.model('ArgList', 'ArgList_all4', 'every history of four operations on one list')
        ctx.drive('vp.ArgsDrive', ctx.emitted_raw(r['out']), 'args4', timeout=3000)
    r = ctx.model('ArgList', 'ArgList_sim', 'random histories of 16 operations on three lists', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 6000, 80000), '-depth', '18', '-seed', str(ctx.seed)])
    ctx.drive('vp.ArgsDrive', ctx.emitted_raw(r['out']), 'args16')
    r = ctx.model('ArgList', 'ArgList_long', 'random histories of 8 operations on lists of up to some thousand entries', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 150, 2000), '-depth', '10', '-seed', str(ctx.seed)])
    ctx.drive('vp.ArgsDrive', ctx.emitted_raw(r['out']), 'argslong')
    # the way a value is put does not matter to what is printed
    ctx.check_cases(S.number(S.mixed(rng(ctx), q(ctx, 6000, 60000)), 'mixed'), 'mixed', mode='channels')
    ctx.check_cases(S.number(S.matrix(rng(ctx, 1), q(ctx, 4000, 40000)), 'matrix'), 'matrix', mode='channels')
    return 'model_checking', NOTE, {}


def alike(ctx):
    for fault in ('number', 'hash'):
        ctx.expect_violation('Alike', 'Alike_' + fault, 'Own')
    r = ctx.model('Alike', 'Alike_all', 'calls with one format or one argument, every history of three')
    ctx.drive('vp.AlikeDrive', ctx.emitted_raw(r['out']), 'alike', timeout=3000)
    r = ctx.model('Alike', 'Alike_sim', 'random histories of 14 calls', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 4000, 60000), '-depth', '16', '-seed', str(ctx.seed)], timeout=3000)
    ctx.drive('vp.AlikeDrive', ctx.emitted_raw(r['out']), 'alikes', timeout=3000)


def reenter(ctx):
    ctx.expect_violation('Reenter', 'Reenter_shared', 'Own')
    r = ctx.model('Reenter', 'Reenter_all' + q(ctx, '', '_deep'), 'targets that use the formatter, every short behaviour')
    ctx.drive('vp.ReenterDrive', ctx.emitted_raw(r['out']), 'reenter', timeout=3000)
    r = ctx.model('Reenter', 'Reenter_wide', 'targets that use the formatter once, at every place')
    ctx.drive('vp.ReenterDrive', ctx.emitted_raw(r['out']), 'reenters', timeout=3000)


def cache(ctx):
    ctx.build(['seq'])
    for fault in ('shared', 'inuse', 'noreset'):   # the property is not vacuous
        ctx.expect_violation('Cache', 'Cache_' + fault, 'Pure')
    for cfg, note in (('Cache_one', 'one thread, every short behaviour'), ('Cache_two', 'two threads, every short interleaving')):
        cfg += q(ctx, '', '_deep')
        r = ctx.model('Cache', cfg, note)
        ctx.drive('vp.CacheDrive', ctx.emitted_raw(r['out']), cfg, timeout=3000)
    r = ctx.model('Cache', 'Cache_sim', 'three threads, random interleavings of 40 to 70 actions', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 1500, 20000), '-depth', '90', '-seed', str(ctx.seed)], timeout=3000)
    ctx.drive('vp.CacheDrive', ctx.emitted_raw(r['out']), 'Cache_sim', timeout=3000)
    ctx.expect_violation('Mutable', 'Mutable_memo', 'Current')
    r = ctx.model('Mutable', 'Mutable_all' + q(ctx, '', '_deep'), 'argument objects changing between calls, every short history')
    ctx.drive('vp.MutableDrive', ctx.emitted_raw(r['out']), 'mutable', timeout=3000)
    r = ctx.model('Mutable', 'Mutable_sim', 'three changing argument objects, random histories of 12 steps', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 2000, 30000), '-depth', '14', '-seed', str(ctx.seed)], timeout=3000)
    ctx.drive('vp.MutableDrive', ctx.emitted_raw(r['out']), 'mutables', timeout=3000)
    alike(ctx)
    reenter(ctx)
    tr = ctx.run_cases(S.number(S.mixed(rng(ctx), q(ctx, 5000, 40000)), 'mixed'), 'mixed')
    if not ctx.validate(tr, 'mixed'):
        ctx.stress(tr, 'stress', 8, q(ctx, 60, 600))
    tr = ctx.run_cases(S.number(S.shared(rng(ctx, 1), q(ctx, 120, 600)), 'shared'), 'shared')
    if not ctx.validate(tr, 'shared'):
        ctx.stress(tr, 'shared', 8, q(ctx, 60, 600))
    return 'model_checking', NOTE, {}


def identity(ctx):
    ctx.expect_violation('Identity', 'Identity_intern', 'Same')
    ctx.expect_violation('Identity', 'Identity_box', 'Refuses')
    r = ctx.model('Identity', 'Identity_all' + q(ctx, '', '_deep'), 'two equal objects, every short history')
    ctx.drive('vp.IdentityDrive', ctx.emitted_raw(r['out']), 'identity', timeout=3000)
    r = ctx.model('Identity', 'Identity_sim', 'four objects, two lists, random histories of 12 steps', workers=1,
                  opts=['-simulate', 'num=%d' % q(ctx, 4000, 40000), '-depth', '14', '-seed', str(ctx.seed)], timeout=3000)
    ctx.drive('vp.IdentityDrive', ctx.emitted_raw(r['out']), 'identities', timeout=3000)


def channels(ctx):
    ctx.build(['seq'])
    r = ctx.model('MC_Sink', q(ctx, 'MC_Sink_quick', 'MC_Sink_deep'), 'failing targets and arguments', timeout=3000)
    ctx.drive('vp.SinkDrive', ctx.emitted_raw(r['out']), 'sinks', timeout=3000)
    ctx.check_cases(S.number(S.mixed(rng(ctx), q(ctx, 8000, 80000)), 'mixed'), 'mixed', mode='channels')
    ctx.check_cases(S.number(S.consume(rng(ctx, 1), q(ctx, 4000, 40000)), 'consume'), 'consume', mode='channels')
    ctx.check_cases(S.number(S.limits(rng(ctx, 2), q(ctx, 60, 600)), 'large'), 'large', mode='channels')
    ctx.check_cases(S.number(S.long_texts(rng(ctx, 3)), 'long'), 'long', mode='channels')
    ctx.check_cases(S.number(S.many_pieces(rng(ctx, 4), q(ctx, (257, 1025, 5000), (257, 1025, 2049, 5000, 10000, 16400))), 'many'), 'many', mode='channels')
    return 'model_checking', NOTE, {}


PLANS = {
    'P12': channels,
    'P13': cache,
    'P15': arglist,
    'P14': options,
    'P17': rope,
    'P01': functional(('grammar', S.grammar, 12000, 100000), ('long', lambda r, n: S.long_formats(r, n), 4000, 12000),
                      models=[('MC_Grammar', c) for c in ('core', 'flags', 'date', 'dates', 'nums', 'specs')]),
    'P02': functional(('consume', S.consume, 9000, 90000), ('many', S.many_args, (127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2048), (127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000)), models=[('MC_Exec', 'wide'), ('MC_Exec', 'long')]),
    'P03': functional(('ints', S.ints, 6000, 60000), ('wide', S.wide('duxXoi'), 100, 1000), models=[('MC_Directive', 'ints')]),
    'P04': functional(('layout', S.layout, 6000, 60000), ('wide', S.wide('dxfegasct'), 100, 1000), models=[('MC_Directive', 'layout')]),
    'P05': shortest,
    'P18': runtimes,
    'P06': functional(('fixed', S.fixed_sci, 9000, 90000), ('wide', S.wide('feFE'), 100, 1000), models=[('MC_Directive', 'round')]),
    'P07': functional(('general', S.general, 9000, 90000), ('wide', S.wide('gG'), 100, 1000), models=[('MC_Directive', 'general')]),
    'P08': functional(('hex', S.hexfloat, 9000, 90000), ('wide', S.wide('aA'), 100, 1000), models=[('MC_Directive', 'hex')]),
    'P09': functional(('bigdec', S.bigdec, 9000, 90000), ('wide', lambda r, n: [c for c in S.wide('feg')(r, 3 * n) if any(a['t'] in ('bigdec', 'bigint') for a in c['a'])], 100, 1000), models=[('MC_Directive', 'bigdec')]),
    'P10': functional(('text', S.texts, 9000, 90000), ('wide', S.wide('sSc'), 100, 1000), models=[('MC_Directive', 'text')]),
    'P11': functional(('dates', S.dates, 8000, 80000), models=[('MC_Date', '')]),
    'P16': functional(('matrix', S.matrix, 6000, 60000), ('numerals', S.numerals, 3000, 30000), models=[('MC_Matrix', 'quick')]),
    'P19': functional(('limits', S.limits, 300, 3000), ('wide', S.wide('dxfegasctop'), 100, 1000), models=[('MC_Limit', 'quick')]),
    'P20': functional(('pointer', S.pointers, 2000, 20000), before=identity),
}
