"""Writes the templates of spec/TemplateGen.tla as Rust source (dom!, component, bind!)."""

TOK = {'A': '<b>&amp; "quote" \'', 'B': 'žluť→😀', 'C': ' lead  and trail ', 'D': 'a\nb\t</script><!--'}    # as in host/pagelib.mjs
CSS = None      # the style texts, set by write()
EV = {'click': ('on_click', None, False), 'mousedown': ('on_mouse_down', None, True), 'mouseup': ('on_mouse_up', None, True),
      'mouseenter': ('on_mouse_enter', None, False), 'mouseleave': ('on_mouse_leave', None, False), 'blur': ('on_blur', None, False),
      'load': ('on_load', None, False), 'input': ('on_input', 'String', False), 'change': ('on_change', 'String', False),
      'keydown': ('on_key_down', 'KeyDownEvent', True), 'hook': ('hook_key_down', 'KeyDownEvent', True),
      'drop': ('on_dropfile', 'DropFileEvent', False)}
NONE = '-none-'


def text(s):
    for k, v in TOK.items():
        s = s.replace('~%s~' % k, v)
    return s


def lit(s):
    out = ''
    for ch in text(s):
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(ch, ch)
    return '"%s"' % out


def uniq(names):
    return list(dict.fromkeys(names))


class Fn:
    """One function body: what is put in front of its template."""

    def __init__(self, w):
        self.w, self.lets, self.short = w, [], set()

    def let(self, expr, name=None, ty=None):
        name = name or 'x%d' % self.w.uid()
        self.lets.append('let %s%s = %s;' % (name, ': ' + ty if ty else '', expr))
        return name

    def head(self):
        return 'let Vars { v1, v2, v3, l1, l2, s1, s2, o1, o2 } = vars();\n    ' + '\n    '.join(self.lets)


class Writer:
    def __init__(self):
        self.n, self.fns, self.comps = 0, [], []

    def uid(self):
        self.n += 1
        return self.n

    # --- expressions ---
    def sum(self, e):
        return '(%d + %d * it%s).rem_euclid(%d)' % (e['a'], e['i'], ''.join(' + v%d.get(ctx)' % v for v in e['v']), e['m'])

    def expr(self, e, f):
        """Computed<i64>"""
        vs = uniq('v%d' % v for v in e['v'])
        if len(e['v']) == 1 and f % 4 == 1:
            return '%s.map(move |x| (%d + %d * it + x).rem_euclid(%d))' % (vs[0], e['a'], e['i'], e['m'])
        if len(vs) > 1 and f % 4 == 1:      # a macro which needs two
            tup = ', '.join(vs)
            src = tup if f % 8 == 1 else ', '.join('%s => vars().%s' % (v, v) for v in vs)
            return 'computed_tuple!(%s).map(move |(%s)| %s)' % (src, tup, self.sum(e).replace('.get(ctx)', ''))
        if f % 4 == 2 and vs:
            return 'Computed::from({ %s move |ctx| %s })' % (' '.join('let %s = %s.clone();' % (v, v) for v in vs), self.sum(e))
        if f % 4 == 3 and vs:
            return 'Computed::from(bind!(%s, |ctx: &Context| { %s }))' % (', '.join(vs), self.sum(e))
        return 'Computed::from(bind!(%s|ctx| %s))' % (''.join(v + ', ' for v in vs), self.sum(e))

    def prefixed(self, e, x, f):
        return '%s.map(move |v| format!("{}{v}", %s))' % (self.expr(e, f), lit(x))

    def css(self, g):
        if not g:
            return 'Css { groups: vec![] }'
        parts = [('Css::str(%s)' if n > 0 else 'Css::string(%s.to_string())') % lit(CSS[abs(n) - 1]) for n in g]
        return parts[0] + ''.join('.extend(%s)' % p for p in parts[1:])

    # --- handlers ---
    def op(self, o):
        k, j, x = o['k'], o['j'], o['x']
        if k == 'v':
            return 'v%d.set(%d);' % (j, x)
        if k == 'vc':
            return 'v%d.change(|v| *v = %d);' % (j, x)
        if k == 'vs':
            return 'v%d.set_value_and_compare(%d);' % (j, x)
        if k == 'l':
            return 'l%d.set(vec![%s]);' % (j, ', '.join(map(str, x)))
        if k == 's':
            return 's%d.set(%s.to_string());' % (j, lit(x))
        return 'o%d.set(%s);' % (j, 'None' if x == NONE else 'Some(%s.to_string())' % lit(x))

    def opvar(self, o):
        return {'v': 'v', 'vc': 'v', 'vs': 'v'}.get(o['k'], o['k']) + str(o['j'])

    def handler(self, fn, h):
        name, arg, ret = EV[h['e']]
        f = h['f']
        used = uniq(self.opvar(o) for o in h['ops'])
        pay = {None: 'J::Null', 'String': 'json!(a)', 'KeyDownEvent': 'key_payload(&a)', 'DropFileEvent': 'drop_payload(&a)'}[arg]
        pipe = '|a: %s|' % arg if arg else '||'
        body = lambda cap: '{ ran(%d, %s, %s); %s %s }' % (h['h'], pay, cap, ' '.join(self.op(o) for o in h['ops']), 'true' if ret and h['r'] else 'false' if ret else '')
        if h['k'] == 'c':
            vs = uniq(['v%d' % v for v in h['x']['v']] + used)
            rc = 'Rc<dyn Fn(%s) -> %s>' % (arg or '', 'bool' if ret else '()')
            inner = 'bind_rc!(%s%s %s)' % (''.join(u + ', ' for u in used), pipe, body('cap')) if f % 2 and pipe != '||' else \
                'Rc::new(bind!(%s%s %s))' % (''.join(u + ', ' for u in used), pipe, body('cap'))
            code = '{ let c: Computed<%s> = Computed::from(bind!(%s|ctx: &Context| { let cap = %s; let r: %s = %s; r })); c }' % (
                rc, ''.join(v + ', ' for v in vs), self.sum(h['x']), rc, inner)
        else:
            k = f % 5
            if k == 0 or (k == 2 and not arg):
                code = 'bind!(%s%s %s)' % (''.join(u + ', ' for u in used), pipe, body('-1'))
            elif k == 1:
                code = '{ %s move %s %s }' % (' '.join('let %s = %s.clone();' % (u, u) for u in used), pipe, body('-1'))
            elif k == 2:
                code = 'bind_rc!(%s%s %s)' % (''.join(u + ', ' for u in used), pipe, body('-1'))
            elif k == 3:     # the variables through a structure
                code = '{ let all = vars(); bind!(%s%s %s) }' % (''.join('all.%s, ' % u for u in used), pipe, body('-1'))
            else:
                code = 'bind!(%s%s %s)' % (''.join(u + ', ' for u in reversed(used)), pipe, body('-1'))
        return self.put(fn, name, code, f // 5)

    def put(self, fn, name, code, f, by_ref=False):
        """name={code} in one of its notations"""
        if f % 3 == 1 and name not in fn.short and name.replace('_', 'a').isalnum():
            fn.short.add(name)
            fn.let(code, name)
            return '{%s}' % name
        if f % 3 == 2:
            return '%s={%s%s}' % (name, '&' if by_ref else '', fn.let(code))
        return '%s={%s}' % (name, code)

    # --- attributes ---
    def attr(self, fn, a):
        f, n, k = a['f'], a['n'], a['k']
        if k == 's':
            x = lit(a['x'])
            return ['%s=%s' % (n, x), '%s={%s}' % (n, x), self.put(fn, n, x, f // 4), self.put(fn, n, x + '.to_string()', f // 4, True)][f % 4]
        if k == 'arg':
            p = 'p%d' % a['p']
            return '%s={%s}' % (n, [p, '&' + p, p + '.clone()', '%s.as_str()' % p][f % 4])
        if k == 'c':
            return self.put(fn, n, self.prefixed(a['e'], a['x'], f // 3), f)
        if k == 'o':
            return self.put(fn, n, '%s.map(move |v| if v == 0 { None } else { Some(format!("{}{v}", %s)) })' % (self.expr(a['e'], f // 3), lit(a['x'])), f, True)
        v = ('s%d' if k == 'v' else 'o%d') % a['j']
        forms = ['&' + v, v + '.clone()', v + '.to_computed()'] + (['&%s.to_computed()' % v] if k == 'w' else [])
        return self.put(fn, n, forms[f % len(forms)], f // 4)

    # --- nodes ---
    def attrs(self, fn, t):
        out = [self.attr(fn, a) for a in t['at']]
        css = t['css']
        if css['k'] == 's':
            out.append(self.put(fn, 'css', self.css(css['g']), t['f']))
        elif css['k'] == 'c':
            arms = ' '.join('%s => %s,' % (i if i < len(css['g']) - 1 else '_', self.css(g)) for i, g in enumerate(css['g']))
            out.append(self.put(fn, 'css', '%s.map(move |v| match v { %s })' % (self.expr(css['e'], t['f']), arms), t['f']))
        if t['sus']:
            out.append('vertigo-suspense={sus%d}' % t['sus'])
        # the order in which different attributes stand does not matter, that of handlers of one event does
        handlers = [self.handler(fn, h) for h in t['ev']]
        return out + handlers if t['f'] % 2 else handlers + out[::-1]

    def element(self, fn, t):
        at = ''.join(' ' + a for a in self.attrs(fn, t))
        if not t['c'] and t['f'] % 2:
            return '<%s%s />' % (t['tag'], at)
        return '<%s%s>%s</%s>' % (t['tag'], at, ' '.join(self.child(fn, c) for c in t['c']), t['tag'])

    def component(self, t):
        """Defines the component and returns (name, its parameters)"""
        n = self.uid()
        fn = Fn(self)
        ps = [self.uid() for _ in t['args']]

        def name(x):
            if isinstance(x, list):
                return [name(y) for y in x]
            if isinstance(x, dict):
                if x.get('t') == 'comp':
                    return x        # has arguments of its own
                r = {k: name(v) for k, v in x.items()}
                if x.get('t') in ('arg', 'carg') or x.get('k') == 'arg':
                    r['p'] = ps[x['j'] - 1]
                return r
            return x
        body = self.element(fn, name(t['body']))
        params = ['it: i64'] + ['p%d: %s' % (p, 'String' if a['k'] == 's' else 'Computed<i64>') for p, a in zip(ps, t['args'])]
        if t['f'] % 2:
            params = params[::-1]
        self.comps.append('#[component]\npub fn C%d(%s) {\n    %s\n    %s { %s }\n}\n' % (
            n, ', '.join(params), fn.head(), ['dom!', 'dom_element!'][t['f'] // 2 % 2], body))
        return 'C%d' % n, ps

    def use(self, fn, t):
        name, ps = self.component(t)
        args = [['it={it}', '{it}', '{&it}', 'it={&it}'][t['f'] % 4]]
        for p, a in zip(ps, t['args']):
            p, f = 'p%d' % p, a['f']
            if a['k'] == 's':
                x = lit(a['x'])
                k = f % 6
                if x == '""' and f % 2:
                    args.append([p + '={}', p + '={Default::default()}'][f // 2 % 2])
                elif k == 0:
                    args.append('%s=%s' % (p, x))
                elif k == 1:
                    args.append('%s={%s}' % (p, x))
                elif k == 2:
                    args.append('%s={%s.to_string()}' % (p, x))
                elif k == 3:
                    fn.let(x, p)
                    args.append('{%s}' % p)
                elif k == 4:
                    fn.let(x + '.to_string()', p)
                    args.append('{&%s}' % p)
                else:
                    args.append('%s={&%s}' % (p, fn.let(x + '.to_string()')))
            else:
                e = self.expr(a['e'], f)
                k = f % 4
                if k == 0:
                    args.append('%s={%s}' % (p, e))
                elif k == 1:
                    args.append('%s={&%s}' % (p, fn.let(e, ty='Computed<i64>')))
                else:
                    fn.let(e, p, 'Computed<i64>')
                    args.append(['{%s}', '{&%s}'][k - 2] % p)
        if t['f'] // 4 % 2:
            args = args[::-1]
        path = ['', 'comps::', 'self::comps::'][t['f'] % 3]
        return '<%s%s %s />' % (path, name, ' '.join(args))

    def tag(self, fn, t):
        return self.use(fn, t) if t['t'] == 'comp' else self.element(fn, t)

    def branch(self, t, option):
        """A function for a subtree which is made later."""
        fn = Fn(self)
        n = self.uid()
        if t['t'] == 'none':
            code, ty = 'None', 'Option<DomNode>'
        elif option:
            code, ty = 'Some(%s)' % self.expr_node(fn, t), 'Option<DomNode>'
        else:
            code, ty = self.expr_node(fn, t), 'DomNode'
        self.fns.append('fn b%d(it: i64) -> %s {\n    %s\n    %s\n}\n' % (n, ty, fn.head(), code))
        return 'b%d' % n

    def value(self, fn, t):
        """What stands between the braces for everything but elements and components, or None"""
        k, f = t['t'], t['f']
        if k == 'text':
            x = lit(t['x'])
            one = text(t['x'])
            forms = [x, x + '.to_string()', 'DomText::new(%s)' % x, fn.let(x), '&' + fn.let(x + '.to_string()'), 'format!("{}", %s)' % x]
            if len(one) == 1:
                forms.append("'%s'" % one)
            return forms[f % len(forms)]
        if k == 'arg':
            p = 'p%d' % t['p']
            return [p, '&' + p, p + '.clone()', p + '.as_str()', 'DomText::new(%s)' % p][f % 5]
        if k == 'carg':
            p = 'p%d' % t['p']
            if t['x'] == '' and f % 2:
                return [p, '&' + p][f // 2 % 2]
            return '%s.map(move |v| format!("{}{v}", %s))' % (p, lit(t['x']))
        if k == 'ctext':
            return 'DomText::new_computed(%s)' % self.prefixed(t['e'], t['x'], f)
        if k == 'etext':
            e = self.expr(t['e'], f // 4) if t['x'] == '' and f % 2 else self.prefixed(t['e'], t['x'], f // 4)
            if f % 3 == 0:
                return e
            return ['', '&'][f % 3 - 1] + fn.let(e)
        if k == 'stext':
            return ['&s%d', 's%d.clone()', 's%d.to_computed()', '&s%d.to_computed()'][f % 4] % t['j']
        if k == 'val':
            option = any(b['t'] == 'none' for b in t['b'])
            arms = ' '.join('%s => %s(it),' % (i if i < len(t['b']) - 1 else '_', self.branch(b, option)) for i, b in enumerate(t['b']))
            e = '%s.%s(move |v| match v { %s })' % (self.expr(t['e'], f // 2), 'render_value_option' if option else 'render_value', arms)
            return fn.let(e) if f % 2 else e
        if k == 'list':
            n = len(t['b'])
            arms = ' '.join('%s => %s(*k),' % (i if i < n - 1 else '_', self.branch(b, False)) for i, b in enumerate(t['b']))
            e = 'l%d.to_computed().render_list(|k| *k, move |k| match k.rem_euclid(%d) { %s })' % (t['l'], n, arms)
            return fn.let(e) if f % 2 else e
        return None

    def expr_node(self, fn, t):
        """An expression for a DomNode"""
        if t['t'] in ('el', 'comp'):
            return 'dom! { %s }' % self.tag(fn, t)
        if t['t'] == 'frag':
            if len(t['c']) > 1 and all(c['t'] in ('el', 'comp') for c in t['c']) and t['f'] % 3:
                return 'dom! { %s }' % ' '.join(self.tag(fn, c) for c in t['c'])
            return 'DomNode::from(DomComment::dom_fragment(vec![%s]))' % ', '.join(self.expr_node(fn, c) for c in t['c'])
        return 'EmbedDom::embed(%s)' % self.value(fn, t)

    def child(self, fn, t):
        k, f = t['t'], t['f']
        if k in ('el', 'comp'):
            if f % 7 == 1:
                return '{ dom! { %s } }' % self.tag(fn, t)
            if f % 7 == 2 and k == 'el':
                return '{ dom_element! { %s } }' % self.tag(fn, t)
            if f % 7 == 3:
                return '{%s}' % fn.let('dom! { %s }' % self.tag(fn, t))
            return self.tag(fn, t)
        if k == 'frag':
            if f % 3 == 0:
                return '{..vec![%s]}' % ', '.join(self.expr_node(fn, c) for c in t['c']) if t['c'] else '{..Vec::<DomNode>::new()}'
            if f % 3 == 1 and t['c'] and all(c['t'] == 'text' for c in t['c']):
                return '{..[%s].iter().map(|x| x.to_string())}' % ', '.join(lit(c['x']) for c in t['c'])
            return '{ %s }' % self.expr_node(fn, t)
        if k == 'text' and f % 9 < 3:
            return lit(t['x'])
        return '{%s}' % self.value(fn, t)

    def root(self, t):
        fn = Fn(self)
        n = self.uid()
        code = 'dom! { %s }' % self.tag(fn, t)
        self.fns.append('fn t%d(it: i64) -> DomNode {\n    %s\n    %s\n}\n' % (n, fn.head(), code))
        return 't%d' % n


def write(path, templates, css):
    global CSS
    CSS = css
    w = Writer()
    arms = ['%d => %s(0),' % (i, w.root(t)) for i, t in enumerate(templates)]
    with open(path, 'w') as f:
        f.write('use crate::kit::*;\nuse self::comps::*;\n\npub fn get(n: usize) -> DomNode {\n    match n {\n        %s\n        _ => panic!("no template {n}"),\n    }\n}\n\n' % '\n        '.join(arms))
        f.write('\n'.join(w.fns))
        f.write('\npub mod comps {\n    use super::*;\n    use crate::kit::*;\n\n%s}\n' % '\n'.join(w.comps))
