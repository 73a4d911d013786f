"""Online monitor for the nesting ('¬') markers of a processed book: a trace specification over the entry stream."""

PARAS = {'p','pc','pr','m','mi','pm','pmo','pmc','pmr','cls','pi','pi1','pi2','pi3','pi4','ph','ph1','ph2','ph3','ph4',
         'q','q1','q2','q3','q4','qr','qm','qm1','qm2','qm3','qm4','li','li1','li2','li3','li4','nb','lh','lf','lim','lim1','lim2'}
CONTAINERS = {'headers', 'intro', 'chapters', 'list', 'ilist', 'iot', 'ms', 'ms1', 'ms2', 'ms3', 'ms4'}

INSIDE = [('list', {'li', 'li1', 'li2', 'li3', 'li4'}), ('ilist', {'ili', 'ili1', 'ili2', 'ili3', 'ili4'}), ('iot', {'io', 'io1', 'io2', 'io3', 'io4'})]
MS = {'ms', 'ms1', 'ms2', 'ms3', 'ms4'}
HEADS = {'s1', 's2', 's3', 's4', 'ms1', 'ms2', 'ms3', 'mr', 'sr', 'r', 'v='}
def MAYCROSS(y):
    """what may still be open inside a structure that closes: verses run over paragraphs, paragraphs, lists and major sections over chapters"""
    return PARAS | {'list'} if y == 'v' else PARAS | {'list'} | MS if y == 'c' else {'v', 'c'} if y in PARAS else MS | {'c'} if y in MS else {'v', 'c'} if y == 'list' else set()

def walk(entries, nestingMarkers):
    """Yield (problem kind, index, detail) for everything which breaks the nesting rules."""
    st = []                       # [(marker, opening text, index)]
    para = None                   # the paragraph which the text now belongs to
    for i, e in enumerate(entries):
        mk = e.getMarker(); opened = [m for m, t, k in st]
        if mk in PARAS:
            para = mk if mk != 'nb' else None      # (nb carries no nesting of its own, b ends a paragraph or stanza)
        elif mk in ('b', 'pb', 'qc', 'qa'): para = None
        elif mk in HEADS and mk != 'v=': para = None
        elif mk in ('v~', 'p~') and para and para not in opened: yield 'text-outside-its-paragraph', i, f'{para} with {opened} open'
        for one, many in INSIDE:
            if mk[0] != '¬' and (one in opened) != (mk in many) and (mk in many or mk in PARAS | HEADS | {'c', 'ip', 'is1', 'im', 'ipi', 'iq1', 'mt1'} and (one != 'list' or mk in PARAS - {'nb'})): yield ('not-closed' if one in opened else 'not-in') + '-' + one, i, f'{mk} with {opened} open'
        if mk in ('c', 'v', 'chapters') and {'intro', 'headers'} & set(opened): yield 'beginning-not-closed', i, f'{mk} with {opened} open'
        if mk == 'c' and opened != ['chapters'] and 'chapters' not in opened: yield 'chapter-outside-chapters', i, str(opened)
        if mk == 'list' and i and entries[i - 1].getMarker()[0] == '¬':
            q = i - 1
            while entries[q].getMarker()[0] == '¬' and entries[q].getMarker() != '¬list': q -= 1
            if entries[q].getMarker() == '¬list': yield 'list-closed-early', i, str(opened)
        if mk[0] == '¬':
            y = mk[1:]
            js = [j for j, (m, t, k) in enumerate(st) if m == y]
            if not js: yield 'closed-but-not-open', i, f'{mk} with {[m for m, t, k in st]} open'; continue
            j = js[-1]
            txt = e.getCleanText()
            if y in ('c', 'v') and txt and st[j][1] and txt.strip() != st[j][1].strip():
                yield 'closes-other-number', i, f'{mk} {txt!r} closes {y} {st[j][1]!r}'
            if y == 'c' and any(m == 'v' for m, t, k in st): yield 'chapter-closed-with-verse-open', i, str([m for m, t, k in st])
            inner = {m for m, t, k in st[j+1:]}
            if inner and not inner <= MAYCROSS(y): yield 'closed-before-what-is-in-it', i, f'{mk} with {[m for m, t, k in st]} open'
            q = i - 1
            while q >= 0 and entries[q].getMarker()[0] == '¬': q -= 1
            pm = entries[q].getMarker(); over = y in PARAS or y in ('v', 'c')
            if over and q != st[j][2] and (pm in PARAS or pm in HEADS or pm in ('v=', 'v') and y == 'v' or pm == 'c' and y in ('c', 'v')): yield 'closed-late', i, f'{mk} after {pm}'
            if y in PARAS and pm == 'c' and q != st[j][2]: yield 'closed-after-chapter-start', i, f'{mk} with nothing in it after {pm}'
            del st[j]
        elif mk in nestingMarkers:
            opened = [m for m, t, k in st]
            if mk in opened: yield 'opened-twice', i, f'{mk} with {opened} open'
            if mk == 'v' and 'c' not in opened and any(m == 'c' for m in opened): yield 'verse-outside-chapter', i, str(opened)
            if mk in PARAS and any(m in PARAS for m in opened): yield 'paragraph-in-paragraph', i, f'{mk} with {opened} open'
            if mk == 'c' and 'v' in opened: yield 'chapter-in-verse', i, str(opened)
            st.append((mk, e.getCleanText(), i))
    for m, t, k in st: yield 'never-closed', k, f'{m} {t!r}'

def openAt(entries, nestingMarkers):
    """The markers open before each entry."""
    st = []; out = []
    for e in entries:
        mk = e.getMarker()
        out.append(list(st))
        if mk[0] == '¬':
            if mk[1:] in st: del st[len(st) - 1 - st[::-1].index(mk[1:])]
        elif mk in nestingMarkers: st.append(mk)
    return out
