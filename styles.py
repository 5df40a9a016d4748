"""Writes the pages of spec/CssGen.tla and CssMC.tla as Rust source: css! for the form "macro", Css::str and Css::string for "text"."""
from templates import lit

QUERIES = ['print', 'screen and (min-width: 600px)', '(30em <= width <= 50em), (orientation: landscape)']    # as in spec/Css.tla
PSEUDO = {'hover': ':hover', 'focus': ':focus', 'nth': ':nth-child(2n+1)', 'hbefore': ':hover::before', 'fletter': ':focus::first-letter',
          'before': '::before', 'both': ':hover:focus', '': ''}
NAMES = ['ab', 'aa', 'w', 'ac', 'width_of_it', 'zz', 'x1', 'color', 'css_output', 'ad', 'b', 'ba', 'n7', 'param']
COLOURS = ['red', '#a0b1c2', 'rgb(1, 2, 3)', 'Red']


class Style:
    def __init__(self, st):
        self.st, self.macro, self.f = st, st['form'] == 'macro', st['f']
        self.lets, self.seen, self.used = [], {}, 0
        self.k = 0

    def expr(self, a, wrap=''):
        """The text of an expression in the style; for Css::string, of its place in the format string."""
        key = (a['k'], a['e']['a'], a['e']['v'], a['e']['m'])
        if key not in self.seen:
            num = '(%d + v%d.get(ctx)).rem_euclid(%d)' % key[1:]
            val = {'n': num, 't': 'COLOURS[((%s) %% 4) as usize]' % num, 'u': 'format!("{}.png", %s)' % num}[a['k']]
            name = NAMES[(len(self.seen) + self.f) % len(NAMES)] + ('' if len(self.seen) < len(NAMES) else str(len(self.seen)))
            form = a['f'] % 4
            if form == 3:
                self.lets.append('let %s = Holder { value: %s };' % (name, val))
                self.seen[key] = name + '.value'
            elif form == 2 and a['k'] == 'n':
                self.lets.append('let %s = %s;' % (name, val))
                self.seen[key] = 'same(%s, "x")' % name
            elif form == 1 and a['k'] == 'n':
                self.lets.append('let %s = %s;' % (name, val))
                self.seen[key] = '%s + 0' % name
            else:
                self.lets.append('let %s = %s;' % (name, val))
                self.seen[key] = name
        e = self.seen[key]
        blank = ' ' if a['f'] % 5 == 4 else ''
        return '{%s%s%s}' % (blank, e, blank)

    def value(self, v):
        out = ''
        for a in v:
            if a['k'] == 'w':
                out += a['x']
            elif a['k'] == 's':
                out += a['q'] + a['x'] + a['q']
            elif a['k'] == 'c':
                out += '/*%s*/' % a['x']
            elif a['k'] == 'u':
                out += 'url(%s)' % self.expr(a) if self.macro else "url('%s')" % self.expr(a)
            else:
                out += self.expr(a)
        return out

    def decl(self, d, last):
        # nothing has to end the last one of a Css::str
        end = '' if last and not self.macro and d['f'] % 3 == 0 else ' ;' if d['f'] % 7 == 6 else ';'
        return d['p'] + [': ', ':', ' : ', ':\n\t'][d['f'] % 4] + self.value(d['v']) + end

    def block(self, items, f):
        sep = ['\n    ', ' ', '', '\n'][f % 4]
        out = [self.item(i, n == len(items) - 1) for n, i in enumerate(items)]
        return '{%s%s%s}' % (sep, sep.join(out), sep)

    def item(self, i, last):
        k, f = i['k'], i.get('f', 0)
        if k == 'd':
            return self.decl(i, last)
        if k == 'note':
            return '/* %s */' % i['x'] if f % 2 else '/*%s*/' % i['x']
        open_ = '' if last and not self.macro and f % 2 else ';'
        if k == 'on':
            if self.macro and f % 2:
                open_ = ''      # the macro adds it
            return PSEUDO[i['on']] + [' ', '', '\n'][f % 3] + self.block(i['b'], f // 3) + open_
        if k == 'ref':
            sel = '[kid%d]' % i['c']
            if i['on']:
                sel = PSEUDO[i['on']] + ' ' + sel
            return sel + ' ' + self.block(i['b'], f // 3) + (';' if f % 2 else '')
        if k == 'at':
            return '@media ' + QUERIES[i['q'] - 1] + ' ' + self.block(i['b'], f // 3) + (open_ or (';' if self.macro else ''))
        if k == 'an':
            # the keyframes' declarations all end with a semicolon
            fr = ''
            if i['fr']:
                fr = ' {%s}' % ' '.join('%s { %s }' % (x['at'], ' '.join(self.decl(d, False) for d in x['b'])) for x in i['fr'])
            return 'animation: ' + self.value(i['pre']) + fr + (open_ or (';' if self.macro else ''))
        raise Exception(k)

    def code(self):
        """(the text of the style, an expression of type Css)"""
        sep = ['\n        ', ' ', '\n\n', '\t'][self.f % 4]
        items = self.st['it']
        text = sep.join(self.item(i, n == len(items) - 1) for n, i in enumerate(items))
        text = ['%s', '\n%s\n', '  %s '][self.f // 4 % 3] % text
        kids = sorted({i['c'] for i in items if i['k'] == 'ref'})
        for c in kids:
            self.lets.append('let kid%d = style%d();' % (c, c))
        if self.macro:
            form = self.f // 12 % 3
            css = 'css!{%s}' % lit(text) if form == 0 else 'css!(%s)' % lit(text) if form == 1 else 'Css::string(css_block!{%s}.to_string())' % lit(text)
        elif self.seen:
            # format! with the expressions as they stand
            out, args, depth = '', [], 0
            marks = sorted(self.marks(text))
            pos = 0
            for a, b, e in marks:
                out += text[pos:a].replace('{', '{{').replace('}', '}}') + '{}'
                args.append(e)
                pos = b
            out += text[pos:].replace('{', '{{').replace('}', '}}')
            css = 'Css::string(format!(%s, %s))' % (lit(out), ', '.join(args))
        else:
            css = ['Css::str(%s)', 'Css::string(%s.to_string())', 'Css::default().push_str(%s)'][self.f // 12 % 3] % lit(text)
        return css, bool(self.seen), kids

    def marks(self, text):
        for e in self.seen.values():
            for form in ('{%s}' % e, '{ %s }' % e):
                at = text.find(form)
                while at >= 0:
                    yield at, at + len(form), e
                    at = text.find(form, at + 1)


HEAD = """use crate::kit::*;
use vertigo::{css, css_block};
const COLOURS: [&str; 4] = ["red", "#a0b1c2", "rgb(1, 2, 3)", "Red"];
struct Holder<T> { value: T }
fn same(x: i64, _: &str) -> i64 { x }

"""


def write(path, pages):
    """pages: lists of styles"""
    with open(path, 'w') as out:
        out.write(HEAD)
        for n, page in enumerate(pages):
            out.write('mod p%d {\nuse super::*;\n' % n)
            nodes = []
            for k, st in enumerate(page, 1):
                s = Style(st)
                css, dyn, kids = s.code()
                lets = ' '.join(s.lets)
                if dyn:
                    attr = 'Computed::from(bind!(v1, v2, |ctx: &Context| { %s %s }))' % (lets, css)
                else:
                    out.write('pub fn style%d() -> Css { %s %s }\n' % (k, lets, css))
                    attr = 'style%d()' % k
                nodes.append('<div data-s="%d" css={%s}>%s</div>' % (k, attr, ''.join('<i data-c="%d" css={style%d()}></i>' % (c, c) for c in kids)))
            out.write('pub fn page() -> DomNode {\n    let Vars { v1, v2, .. } = vars();\n    dom! { <main>%s</main> }\n}\n}\n' % '\n'.join(nodes))
        out.write('pub fn get(n: usize) -> DomNode {\n    match n {\n%s        _ => panic!("no page {n}"),\n    }\n}\n' % ''.join('        %d => p%d::page(),\n' % (n, n) for n in range(len(pages))))
