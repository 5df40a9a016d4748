"""D01-D06, D08-D10: pages (spec/Page.tla, PageGen, PageMC, KeyedList, DomProtocol)."""
import json
import shutil
import styles
import templates
from vlib import *

# generator profiles per property: (profile, levels, steps, behaviours quick, thorough)
GEN = {
    'D01': [('page', 3, 10, 1400, 12000), ('list', 3, 10, 700, 6000), ('page', 2, 30, 700, 6000), ('event', 3, 8, 300, 3000), ('sus', 3, 8, 300, 3000)],
    'D02': [('list', 3, 10, 1000, 10000), ('list', 2, 30, 700, 6000), ('list', 1, 60, 400, 3000)],
    'D03': [('page', 3, 10, 500, 3000), ('list', 2, 12, 300, 2000), ('event', 3, 8, 300, 2000), ('css', 3, 8, 200, 1000)],
    'D04': [('event', 3, 12, 2100, 16000), ('event', 2, 30, 700, 6000)],
    'D05': [('css', 3, 10, 2100, 16000), ('css', 2, 30, 700, 6000)],
    'D06': [('sus', 3, 10, 2100, 16000), ('sus', 2, 30, 1000, 8000)],
    'D10': [('page', 3, 10, 600, 8000), ('list', 3, 10, 500, 5000), ('event', 3, 8, 500, 5000), ('css', 3, 8, 300, 3000), ('page', 2, 30, 300, 3000)],
}


def pages(c, prop, tag, path, st, scripts, wasm, opts=None, props=1):
    """Replays generated pages; half of them with each build of the browser driver."""
    c.model(st)
    n = ev = 0
    lines = [l for l in open(path).read().split('\n') if l]
    for k, script in enumerate(scripts):
        part = '%s-%d' % (path, k)
        with open(part, 'w') as f:
            f.write('\n'.join(lines[k::len(scripts)]) + '\n')
        o = dict(wrap=True)
        o.update(opts or {})
        try:
            rows, summ = node_parallel(c.s, 'run_page.mjs', [wasm, script, json.dumps(o)], part)
        except Hang as e:
            c.violation('hang: %s' % e, dict(file=part))
            continue
        n += summ['scenarios']
        c.add_cov(steps=summ['steps'], dom_commands=summ['commands'], events=summ['events'])
        for r in rows:
            mine = [b for b in r['bad'] if props is None or prop in b['props']]
            if mine:
                c.violation(json.dumps(mine[0])[:900], dict(mismatch=mine, scenario=r['scenario'], driver=os.path.basename(script)))
    c.add_cov(traces_validated_against_impl=n, states=st['states'])
    if 'samples' not in c.coverage:
        c.coverage['samples'] = [json.loads(lines[0])]


def streams(c, tag, parts):
    """Recorded command streams against DomTrace."""
    def one(i):
        d = c.s.path('tlc-%s-%d' % (tag, i))
        os.makedirs(d, exist_ok=True)
        shutil.copy(parts[i], d + '/trace.ndjson')
        return tlc(c.s, '%s-%d' % (tag, i), 'DomTrace',
                   'SPECIFICATION Spec\nCONSTANT File = "trace.ndjson"\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n',
                   ['-workers', '1'], 1500, heap='3g')
    states = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for i, (rc, out) in enumerate(ex.map(one, range(len(parts)))):
            if 'Model checking completed. No error has been found' not in out:
                raise ToolError('DomTrace %s-%d rc=%s\n%s' % (tag, i, rc, out[-3000:]))
            states += int(re.findall(r'(\d+) distinct states found', out.replace(',', ''))[-1])
            traces = None
            for l in out.split('\n'):
                if l.startswith('"@@'):
                    v = json.loads(json.loads(l)[2:])
                    traces = traces or open(parts[i]).read().split('\n')
                    c.violation('stream: %s %s' % (v['why'], json.dumps(v['cmd'])), dict(v, stream=json.loads(traces[v['trace'] - 1])))
    return states


# generator profiles of the templates: (profile, levels, steps, behaviours)
TEMPLATES = [('page', 3, 6, 70), ('event', 2, 8, 130), ('list', 2, 6, 50), ('css', 2, 5, 40)]


def check_templates():
    c = Check('D08', 'model_checking')
    build_rig()     # the library itself is fine: what does not compile now is a template
    scripts = [COMMITTED_JS, build_bundle()]
    css = json.loads(run(['node', '-e', "import('%s/host/pagelib.mjs').then(m => console.log(JSON.stringify(m.CSS.map(c => c[0]))))" % VERIF]).stdout)
    for rnd in range(8 if THOROUGH else 1):
        files = []
        if rnd == 0:
            files.append(('mc',) + enumerate_model(c.s, 'mc', 'TemplateMC', {}, ['Good'], extra='VIEW View\n'))
        for i, (profile, levels, steps, num) in enumerate(TEMPLATES):
            files.append(('gen%d-%d' % (rnd, i),) + generate(c.s, 'gen%d-%d' % (rnd, i), 'TemplateGen', dict(Steps=steps, Levels=levels, Profile=profile), num * (2 if THOROUGH else 1),
                                                         steps + 10, invariants=['GoodT'], spec='TSpec', seed=SEED + 9000 + i * 7 + rnd * 100))
        rows = [[json.loads(l) for l in open(path).read().split('\n') if l] for _, path, _ in files]
        source = c.s.path('templates%d.rs' % rnd)
        templates.write(source, [r['src'] for part in rows for r in part], css)
        wasm = build_templates(source)
        if wasm is None:
            c.violation('templates which mean something do not compile', dict(file=source))
            break
        n = 0
        for (tag, path, st), part in zip(files, rows):
            numbered = path + '-n'
            with open(numbered, 'w') as f:
                for r in part:
                    f.write(json.dumps(dict(r, tmpl=n)) + '\n')
                    n += 1
            pages(c, 'D08', tag, numbered, st, scripts, wasm, props=None)
        c.add_cov(templates=n)
        os.remove(wasm)
    return c.finish()


def check_styles():
    c = Check('D09', 'model_checking')
    build_rig()
    scripts = [COMMITTED_JS, build_bundle()]
    for rnd in range(10 if THOROUGH else 1):
        files = []
        if rnd == 0:
            files.append(('mc',) + enumerate_model(c.s, 'mc', 'CssMC', dict(Depth=4 if THOROUGH else 3), ['Good'], extra='VIEW View\n'))
        for i, (steps, n, items, num) in enumerate([(10, 6, 7, 260), (8, 3, 14, 60)]):
            files.append(('gen%d-%d' % (rnd, i),) + generate(c.s, 'gen%d-%d' % (rnd, i), 'CssGen', dict(Steps=steps, Styles=n, Items=items), num * (3 if THOROUGH else 1),
                                                             steps + n + 5, invariants=['Good'], seed=SEED + 12000 + i * 7 + rnd * 100))
        rows = [[json.loads(l) for l in open(path).read().split('\n') if l] for _, path, _ in files]
        source = c.s.path('styles%d.rs' % rnd)
        styles.write(source, [r['styles'] for part in rows for r in part])
        wasm = build_templates(source)
        if wasm is None:
            c.violation('styles which mean something do not compile', dict(file=source))
            break
        n = 0
        for k, ((tag, path, st), part) in enumerate(zip(files, rows)):
            c.model(st)
            numbered = path + '-n'
            with open(numbered, 'w') as f:
                for r in part:
                    f.write(json.dumps(dict(r, tmpl=n)) + '\n')
                    n += 1
            try:
                bad, summ = node_parallel(c.s, 'run_css.mjs', [wasm, scripts[(k + rnd) % 2]], numbered, timeout=2500)
            except Hang as e:
                c.violation('hang: %s' % e, {})
                continue
            c.add_cov(traces_validated_against_impl=summ['scenarios'], steps_replayed=summ['steps'], styles=summ['styles'])
            for r in bad:
                b = r['bad'][0]
                m = b.get('style')
                code = styles.Style(r['scenario']['styles'][m - 1]).code()[0] if m else ''
                c.violation('%s after %s: %s instead of %s: %s' % (b['what'], json.dumps(b['h']), json.dumps(b['got'])[:200], json.dumps(b['expected'])[:200], code[:500]), r)
        os.remove(wasm)
    return c.finish()


def check(prop):
    if prop == 'D08':
        return check_templates()
    if prop == 'D09':
        return check_styles()
    c = Check(prop, 'model_checking')
    wasm = build_rig()
    scripts = [COMMITTED_JS, build_bundle()]
    if prop == 'D03':
        for n, cbs in [(3, 1)] + ([(3, 2), (4, 1)] if THOROUGH else []):
            c.model(model_check(c.s, 'proto-%d-%d' % (n, cbs), 'DomProtocolMC', dict(N=n, Cbs=cbs), ['Inv', 'Rooted'], timeout=1500))
    for i, (profile, levels, steps, quick, thorough) in enumerate(GEN[prop]):
        path, st = generate(c.s, 'gen%d' % i, 'PageGen', dict(Steps=steps, Levels=levels, Profile=profile), thorough if THOROUGH else quick,
                            steps + 10, invariants=['Good'], seed=SEED + int(prop[1:]) * 100 + i * 7 + 1000)
        tr = c.s.path('trace%d' % i)
        pages(c, prop, 'gen%d' % i, path, st, scripts, wasm, dict(trace=tr) if prop == 'D03' else dict(inspect=True) if prop == 'D10' else None)
        if prop == 'D03':
            # run_page of each part appends its number; the second driver's run has overwritten the first one's files
            parts = sorted(os.path.join(c.s.dir, f) for f in os.listdir(c.s.dir) if f.startswith('trace%d.' % i))
            n = streams(c, 'tr%d' % i, parts)
            c.add_cov(stream_states=n)
    if prop in ('D01', 'D02', 'D03', 'D10'):
        for n, walk in [(2, 'all'), (3, 'five')] if prop == 'D01' else [(2, 'five')] if prop in ('D03', 'D10') else [(2, 'all')]:
            if THOROUGH and n == 3:
                walk = 'all'
            path, st = enumerate_model(c.s, 'mc%d' % n, 'PageMC', dict(N=n, Walk=walk), ['Good'], extra='VIEW View\n', timeout=2500)
            pages(c, prop, 'mc%d' % n, path, st, scripts, wasm, dict(inspect=True) if prop == 'D10' else None)
    if prop == 'D02':
        for i, (k, opts) in enumerate([(dict(Keys=4, Len1=4, Dups=2, Perm=0), dict(all=THOROUGH)), (dict(Keys=7, Len1=1, Dups=1, Perm=6), {})]):
            path, st = enumerate_model(c.s, 'lists%d' % i, 'KeyedList', k, ['Distinct', 'Minimal', 'Kept'], timeout=1500)
            c.model(st)
            try:
                rows, summ = node_parallel(c.s, 'run_list.mjs', [wasm, scripts[i], json.dumps(opts)], path, timeout=2500)
            except Hang as e:
                c.violation('hang: %s' % e, {})
                continue
            c.add_cov(list_pairs=summ['scenarios'], traces_validated_against_impl=summ['scenarios'], states=st['states'])
            for r in rows:
                c.violation('list %s -> %s: %s' % (r['scenario']['old'], r['scenario']['new'], json.dumps(r['bad'][0])[:600]), r)
    return c.finish()
