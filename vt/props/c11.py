# -*- coding: utf-8 -*-
'''C11 page selection'''
import os
import random
from .. import canon, conv, docxr
from .. import common as M
from .. import gen_doc as D
from ..core import Result

TITLE = 'Exactly the selected pages are converted, in document order'
RULE = ('generated documents of 1-9 pages of every kind and sample files; random selections by start/end, page lists (unordered, repeated, out of range), '
        'one-based indices, and repeated conversions and table extractions with one Converter instance; each result is compared section by section with '
        'the conversion of the whole document; distinct by case')
NEED = {'selections': 200, 'reused': 40, 'empty': 3, 'one_based': 20}
CASE_LIMIT = 180


def cases(tier, rnd):
    k = 4 if tier == 'quick' else 80
    out = M.mixed(rnd, [(10 * k, {'kind': 'gen'})])
    for i in range(14 if tier == 'quick' else 69): out.append({'kind': 'sample', 'index': rnd.randrange(23), 'seed': rnd.randrange(1 << 30)})
    rnd.shuffle(out)
    return out


def selection(rnd, n):
    '''-> (kwargs of convert, expected indices) or None for an empty selection'''
    r = rnd.random()
    if r < .4:
        a = rnd.randint(0, n)
        b = rnd.choice((None, rnd.randint(0, n), rnd.randint(a, n), n, n + rnd.randint(0, 3)))
        kw = {'start': a}
        if b is not None: kw['end'] = b
        if rnd.random() < .2 and b is not None: kw.pop('start'); a = 0
        return kw, list(range(n))[a:b]
    p = [rnd.randint(0, n - 1) for _ in range(rnd.randint(1, n + 1))]
    if rnd.random() < .3: p.insert(rnd.randint(0, len(p)), rnd.choice((n, n + 3, -1, -n)))
    if rnd.random() < .4: p = rnd.sample(range(n), rnd.randint(1, n))
    if rnd.random() < .2: return {'start': rnd.randint(0, n), 'end': rnd.randint(0, n), 'pages': p}, sorted({i for i in p if 0 <= i < n})
    return {'pages': tuple(p) if rnd.random() < .2 else p}, sorted({i for i in p if 0 <= i < n})


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    from pdf2docx import Converter, parse
    with conv.scratch() as d:
        if case['kind'] == 'gen':
            pdf, truth = D.build(rnd, rnd.choice((1, 2, 3, 3, 4, 5, 6, 9, 12))) if rnd.random() < .93 else D.build(rnd, rnd.randint(20, 40), kinds=('text', 'marks', 'blank'))
            path = pdf.save(os.path.join(d, 'in.pdf'))
        else:
            path, truth = D.samples()[case['index'] % len(D.samples())], None
        out = os.path.join(d, 'o.docx')
        with conv.quiet() as log:
            cv = Converter(path)
            n = len(cv)
            try: cv.convert(out)
            except Exception as e: res.bad('error', 'whole document: %r' % e); return res
            full = canon.sections(open(out, 'rb').read())
            try: full_tables = [[t for t in cv.extract_tables(pages=[i])] for i in range(n)]
            except Exception as e: res.bad('error', 'extract_tables: %r' % e); return res
        if 'gnore page' in log.getvalue(): res.bad('ignored', 'page given up'); return res
        if len(full) != n: res.bad('number', '%d sections for %d pages' % (len(full), n)); return res
        if truth is not None:
            if n != len(truth): res.bad('len', 'len() is %d for %d pages' % (n, len(truth)))
            for i, (t, s) in enumerate(zip(truth, docxr.Docx(open(out, 'rb').read()).sections)):
                want = set(t.words)
                got = set(M.words_of(s))
                # words may be glued at line ends: the marker is that no word of another page is there
                other = {w for j, u in enumerate(truth) if u.words != t.words for w in u.words}
                if other & got: res.bad('order', 'section %d holds text of another page: %r' % (i, list(other & got)[:3]))
                if want and not (want & got) and not any(M.squeeze(M.sec_text(s)).find(w) >= 0 for w in want):
                    res.bad('order', 'section %d holds no text of page %d' % (i, i))
        res.sig = [case['kind'], case.get('index', case['seed'])]
        res.note = '%d pages of %s' % (n, [t.kind for t in truth] if truth else os.path.basename(path))
        res.count('pages', n)
        inst = cv
        for k in range(8 if case['kind'] == 'gen' else 2):
            kw, want = selection(rnd, n)
            how = rnd.choice(('fresh', 'fresh', 'same', 'same', 'parse', 'one', 'tables'))
            if how == 'same': res.count('reused')
            if os.path.exists(out): os.unlink(out)
            err, cv2, got_tables = None, None, None
            with conv.quiet() as log:
                try:
                    if how == 'fresh':
                        cv2 = Converter(path)
                        cv2.convert(out, **kw)
                    elif how == 'same': inst.convert(out, **kw)
                    elif how == 'tables': got_tables = inst.extract_tables(**kw)
                    elif how == 'parse': parse(path, out, **kw)
                    else:
                        res.count('one_based')
                        k2 = dict(kw)
                        if 'pages' in k2: k2['pages'] = [i + 1 for i in k2['pages']]
                        if 'start' in k2: k2['start'] += 1
                        # the last page, in the same base: exclusive, as for zero-based ones
                        if 'end' in k2: k2['end'] += 1
                        parse(path, out, zero_based_index=False, **k2)
                except Exception as e: err = e
                finally:
                    if cv2 is not None: cv2.close()
            res.count('selections')
            what = '%s %s of %d pages' % (how, kw, n)
            if how == 'tables':
                if err is not None: res.bad('error', '%s: %r' % (what, err)); continue
                exp = [t for i in want for t in full_tables[i]]
                if got_tables != exp: res.bad('tables', '%s: %d tables, expected %d' % (what, len(got_tables), len(exp)))
                continue
            if not want:
                res.count('empty')
                if os.path.exists(out): res.bad('empty', '%s: a docx of %d sections' % (what, len(canon.sections(open(out, 'rb').read()))))
                continue
            if err is not None: res.bad('error', '%s: %r' % (what, err)); continue
            got = canon.sections(open(out, 'rb').read())
            m = canon.first_diff([full[i] for i in want], got)
            if m: res.bad('selection', '%s: %s' % (what, m))
        with conv.quiet(): inst.close()
    return res
