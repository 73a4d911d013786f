"""An independent USX writer (from the generated USFM lines) and an independent USX reader (ElementTree)."""
import re, xml.etree.ElementTree as ET
from collections import defaultdict
from xml.sax.saxutils import escape, quoteattr
from bosv import gen

PARA = {'p', 'm', 'pi1', 'pmo', 'nb', 'q1', 'q2', 'li1', 'li2', 'b', 'pc', 'pr', 'mi', 'q3', 'q4', 'qr', 'qc', 'pm', 'pmr', 'cls', 'pi2', 'li3', 'q', 'pi', 'qm1', 'ph1', 'li4', 'pi3', 'pi4', 'qm2', 'qm3', 'pmc'}
NOTEC = ('fr', 'ft', 'fk', 'fq', 'fqa', 'xo', 'xt', 'xk')

def plainText(t, lay):
    """escaped text; ' // ' may be an optbreak element, and any word may be inside a ref element"""
    def one(x):
        r = lay.get('refs')
        if r is None or r.random() > .3: return escape(x)
        ws = list(re.finditer(r'[^\s\u00a0]+', x))
        if not ws: return escape(x)
        w = r.choice(ws)
        return escape(x[:w.start()]) + f'<ref loc="{r.choice(["MAT 5:3", "GEN 1:1-2:3", "1KI 6:6"])}">{escape(w.group())}</ref>' + escape(x[w.end():])
    if lay.get('optbreak') and not lay.get('depth'): return '<optbreak />'.join(one(x) for x in t.split('//'))
    return one(t)

def notePieces(body, lay):
    out = []; closed = lay['closed']
    for m in re.finditer(r'\\(\w+) ([^\\]*)', body):
        st, tx = m.groups(); assert st in NOTEC, body
        out.append(f'<char style="{st}"' + ('' if closed else ' closed="false"') + f'>{plainText(tx, lay)}</char>')
    return out

def inline(u, lay):
    """USFM inline text to USX mixed content."""
    u = u.replace('~', '\u00a0')
    out = []; i = 0
    rx = re.compile(r'\\(fe|f|x) (\S+) (.*?)\\\1\*|\\fig ([^|]*)\|(.*?)\\fig\*|\\w ([^|\\]*)\|(.*?)\\w\*|\\(\+?)(\w+) ((?:[^\\]|\\\+\w+ [^\\]*\\\+\w+\*)*)\\\+?\9\*')
    while True:
        m = rx.search(u, i)
        if not m: assert '\\' not in u[i:], u; out.append(plainText(u[i:], lay)); break
        assert '\\' not in u[i:m.start()], u
        out.append(plainText(u[i:m.start()], lay))
        if m.group(1):
            out.append(f'<note caller={quoteattr(m.group(2))} style="{m.group(1)}">' + ''.join(notePieces(m.group(3), dict(lay, depth=1))) + '</note>')
        elif m.group(5) is not None:
            old = m.group(5).split('|')
            at = dict(re.findall(r'([\w-]+)="([^"]*)"', m.group(5))) if len(old) == 1 else None
            if at is None: out.append('<figure style="fig" ' + ' '.join(f'{k}={quoteattr(v)}' for k, v in zip(('desc', 'file', 'size', 'loc', 'copy'), [m.group(4)] + old[:4])) + f' ref={quoteattr(old[5])}>{escape(old[4])}</figure>'); i = m.end(); continue
            out.append(f'<figure style="fig" desc="" file={quoteattr(at["src"])} size={quoteattr(at["size"])} loc="" copy="" ref={quoteattr(at["ref"])}>{escape(m.group(4))}</figure>')
        elif m.group(7) is not None:
            out.append('<char style="w" ' + ' '.join(f'{k}={quoteattr(v)}' for k, v in re.findall(r'([\w-]+)="([^"]*)"', m.group(7))) + f'>{escape(m.group(6))}</char>')
        else: out.append(f'<char style="{m.group(9)}">{inline(m.group(10), dict(lay, depth=1))}</char>')
        i = m.end()
    return ''.join(out)

def attribute(L, r):
    """attributes in the usual or in any other order"""
    if r is not None: L = list(L); r.shuffle(L)
    return ''.join(f' {k}={quoteattr(v)}' for k, v in L if v is not None)

def book(model, b, version='3.0', layout='paratext', closed=False, deco=None):
    """deco: a random generator: references, optional breaks, alternate and published numbers, vids, attribute orders (see decorate)"""
    lay = {'note': layout == 'paratext', 'closed': closed, 'refs': deco, 'optbreak': deco is not None and deco.random() < .7}
    order = deco if deco is not None and deco.random() < .3 else None
    code = model.pool[b.bbb][1]
    milestones = version.startswith('3')
    nl, ind = ('\n', '  ') if layout != 'compact' else ('', '')
    L = []; para = None; C = None; V = None
    def endVerse():
        nonlocal V
        if V and milestones: para.append(f'<verse eid="{code} {C}:{V}" />')
        V = None
    def endPara(final=False):
        nonlocal para
        if para is not None:
            L.append(f'{ind}<para style="{para[0]}"{para[1]}>' + ''.join(para[2:]) + '</para>' if len(para) > 2 else f'{ind}<para style="{para[0]}"{para[1]} />')
            para = None
    lines = b.lines
    # which paragraph-level line ends the current verse: a verse goes on until the next v or c
    for n, l in enumerate(lines):
        mk, _, tx = l[1:].partition(' ')
        if mk == 'id': L.append(f'{ind}<book code="{code}" style="id">{escape(tx.partition(" ")[2])}</book>')
        elif mk == 'c':
            endPara()
            if C and milestones: L.append(f'{ind}<chapter eid="{code} {C}" />')
            x = re.match(r'(\S+)(?: \\ca (.*?)\\ca\*)?$', tx); C = x.group(1)
            cp = lines[n+1][4:] if lines[n+1:] and lines[n+1].startswith('\\cp ') else None
            L.append(f'{ind}<chapter' + attribute([('number', C), ('style', 'c'), ('altnumber', x.group(2)), ('pubnumber', cp), ('sid', f'{code} {C}' if milestones else None)], order) + ' />')
        elif mk == 'cp': pass
        elif mk == 'tr':
            if not lines[n-1].startswith('\\tr '): endVerse() if para is not None else None; endPara(); L.append(f'{ind}<table>')
            cells = re.findall(r'\\(t[hc]r?\d) ((?:[^\\]|\\(?!t[hc]).)*)', tx)
            L.append(f'{ind*2}<row style="tr">{nl}' + nl.join(f'{ind*3}<cell style="{a}" align="{"end" if "r" in a else "start"}">{inline(t, lay)}</cell>' for a, t in cells) + f'{nl}{ind*2}</row>')
            if not lines[n+1:] or not lines[n+1].startswith('\\tr '): L.append(f'{ind}</table>')
        elif mk == 'v':
            v, _, tx = tx.partition(' '); V = v
            x = re.match(r'(?:\\va (.*?)\\va\* ?)?(?:\\vp (.*?)\\vp\* ?)?', tx); tx = tx[x.end():]
            para.append((nl + ind * 2 if layout == 'paratext' else '') + '<verse' + attribute([('number', v), ('style', 'v'), ('altnumber', x.group(1)), ('pubnumber', x.group(2)), ('sid', f'{code} {C}:{v}' if milestones else None)], order) + ' />' + inline(tx, lay))
            last = n   # the line where the text of this verse ends
            for k in range(n + 1, len(lines)):
                if lines[k].startswith(('\\v ', '\\c ')): break
                m2, _, t2 = lines[k][1:].partition(' ')
                if m2 in PARA and t2: last = k
            if last == n: endVerse()
        else:
            endPara()
            if mk in PARA:
                para = [mk, f' vid="{code} {C}:{V}"' if deco is not None and V and milestones and deco.random() < .7 else '']
                if tx: para.append(inline(tx, lay))
                if V and n == last: endVerse()
            else: L.append(f'{ind}<para style="{mk}">{inline(tx, lay)}</para>')
    endPara()
    if C and milestones: L.append(f'{ind}<chapter eid="{code} {C}" />')
    return f'<?xml version="1.0" encoding="utf-8"?>{nl}<usx version="{version}">{nl}' + nl.join(L) + f'{nl}</usx>{nl}'

def decorate(r, m, figs=True):
    """Things other programs write, added to the generated lines: alternate and published numbers, optional line breaks, old figures."""
    for b in m.books:
        L = []
        tables = figs and r.random() < .3
        for l in b.lines:
            mk, _, tx = l[1:].partition(' ')
            if mk == 'c':
                if tables and len([x for x in L if x.startswith('\\v ')]) and r.random() < .7:
                    W = gen.W(r); n = r.choice([1, 2, 3, 4])
                    L.append('\\tr ' + ''.join(f'\\th{r.choice(["", "r"])}{k+1} {W.words(1)}' for k in range(n)))
                    for _ in range(r.choice([1, 2])): L.append('\\tr ' + ''.join(f'\\tc{r.choice(["", "r"])}{k+1} {W.words(r.randint(1, 3))}' + r.choice(['', '', f'\\f + \\ft {W.words(2)}\\f*']) for k in range(n)))
                if r.random() < .25: l += f' \\ca {r.randint(2, 150)}\\ca*'
                L.append(l)
                if r.random() < .25: L.append(f'\\cp {r.choice(["A", "Β", "2 (3)"])}')
                if r.random() < .15: L.append(f'\\cl Psalm {tx}')
                continue
            if mk == 'v' and ' ' in tx:
                v, _, t = tx.partition(' ')
                if r.random() < .15: t = f'\\va {r.randint(2, 99)}\\va* ' + t
                if r.random() < .15 and (figs or not t.startswith('\\va')): t = re.sub(r'^(\\va .*?\\va\* )?', lambda x: x.group() + f'\\vp {r.randint(2, 99)}{r.choice("abA")}\\vp* ', t)
                l = f'\\v {v} {t}'
            if mk in PARA and tx or mk == 'v' and ' ' in tx:
                x = re.search(r'(?<=[a-z]) (?=[a-zA-Z\u00c0-\ufffd])[^\\]*$', l)      # a space in the plain text at the end of the line
                if x and x.start() > len(mk) + 1 and not (mk == 'v' and l.count(' ', 0, x.start() + 1) < 2):
                    y = r.random()
                    if y < .15: l = l[:x.start()] + ' // ' + l[x.start()+1:]
                    elif y < .3 and figs: l = l[:x.start()] + f' \\fig {r.choice(["", "a boat"])}|f{r.randint(1,9)}.jpg|{r.choice(["col", "span"])}|{r.choice(["", "x"])}|{r.choice(["", "© x"])}|{r.choice(["the caption", "cap"])}|1:1\\fig* ' + l[x.start()+1:]
            if mk == 'id' and r.random() < .4: l += r.choice([' - the version', ' 3.0 – (c) x', ' \u00a0y'])
            L.append(l)
            if mk in ('ip', 'ipi', 'im') and r.random() < .3: L.append('\\ib')
        b.lines[:] = L

class Read:
    """What an ElementTree walk over a USX file says."""
    def __init__(self, fn):
        self.main = defaultdict(list); self.notes = defaultdict(list); self.heads = []; self.noteStyles = defaultdict(list); self.words = []
        self.chars = []; self.paras = []; self.order = []; self.chapters = []; self.open = []; self.problems = []
        self.noteTexts = defaultdict(list); self.refs = []; self.vids = []; self.sids = []; self.numbers = {}; self.bookText = None
        self.C, self.V = '-1', '0'; self.inNote = 0; self.para = None
        self.root = ET.parse(fn).getroot()
        self.text = {}
        self.walk(self.root)
    def put(self, t):
        if not t: return
        k = (self.C, self.V)
        t = re.sub(r'\n[ \t]*', '', t)
        if self.inNote: self.notes[k] += gen.tokens(t)
        elif self.para is not None and self.para not in PARA: self.heads += [(self.C, self.V, self.para, x) for x in gen.tokens(t)]
        else: self.main[k] += gen.tokens(t); self.text[k] = self.text.get(k, '') + t
    def walk(self, e):
        if e.tag == 'chapter':
            if 'number' in e.attrib:
                self.C = e.attrib['number']; self.V = '0'; self.chapters.append(self.C)
                if 'sid' in e.attrib: self.open.append(e.attrib['sid']); self.sids.append((e.attrib['sid'], self.C))
            elif 'eid' in e.attrib:
                if not self.open or self.open[-1] != e.attrib['eid']: self.problems.append(f"chapter end {e.attrib['eid']} while open {self.open}")
                else: self.open.pop()
        elif e.tag == 'verse':
            if 'number' in e.attrib:
                self.V = e.attrib['number']; self.numbers[(self.C, self.V)] = dict(e.attrib); self.order.append((self.C, self.V))
                if 'sid' in e.attrib: self.open.append(e.attrib['sid']); self.sids.append((e.attrib['sid'], self.C, self.V))
            elif 'eid' in e.attrib:
                if not self.open or self.open[-1] != e.attrib['eid']: self.problems.append(f"verse end {e.attrib['eid']} while open {self.open}")
                else: self.open.pop()
        elif e.tag == 'book': self.bookText = e.text
        elif e.tag == 'ref': self.refs.append((self.C, self.V, e.attrib.get('loc'), e.text))
        elif e.tag == 'para': self.vids.append((self.C, self.V, e.attrib.get('vid'))); self.para = e.attrib.get('style'); self.paras.append((self.C, self.V, self.para))
        elif e.tag == 'note': self.inNote += 1; self.noteTexts[(self.C, self.V)].append((e.attrib.get('style'), ''.join(e.itertext()), [(x.attrib.get('style'), ''.join(x.itertext())) for x in e if x.tag == 'char'])); self.noteStyles[(self.C, self.V)].append(e.attrib.get('style'))
        elif e.tag == 'char':
            if e.attrib.get('style') == 'w': self.words.append((self.C, self.V, e.text, tuple(sorted((k, v) for k, v in e.attrib.items() if k != 'style'))))
            elif not self.inNote: self.chars.append((self.C, self.V, e.attrib.get('style'), tuple(gen.tokens(''.join(e.itertext())))))
        self.put(e.text)
        for s in e: self.walk(s)
        if e.tag == 'note': self.inNote -= 1
        if e.tag == 'para': self.para = None; k = (self.C, self.V); self.text[k] = self.text.get(k, '') + ' '
        self.put(e.tail)
