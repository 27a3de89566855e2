# -*- coding: utf-8 -*-
'''Rewrites content streams so that a viewer shows the same, the way different PDF producers would write it.'''
import re

TOKEN = re.compile(rb'\((?:\\.|[^()\\])*\)|<[0-9A-Fa-f\s]*>|\[|\]|/[^\s/\[\]()<>]*|[^\s/\[\]()<>]+')
NUM = re.compile(rb'^[-+]?(\d+\.?\d*|\.\d+)$')
COLORS = {b'g': b'/DeviceGray cs %s sc', b'rg': b'/DeviceRGB cs %s sc', b'k': b'/DeviceCMYK cs %s sc',
          b'G': b'/DeviceGray CS %s SC', b'RG': b'/DeviceRGB CS %s SC', b'K': b'/DeviceCMYK CS %s SC'}


def num(x):
    s = b'%.8f' % x
    s = s.rstrip(b'0').rstrip(b'.')
    return b'0' if s in (b'-0', b'') else s


def operations(body):
    '''-> (operator, operands)'''
    args = []
    for m in TOKEN.finditer(body):
        t = m.group()
        if t[:1] in b'(<[]/' or NUM.match(t): args.append(t)
        else:
            yield t, args
            args = []


def rewrite(body, sx=1.0, sy=1.0, cs=False, tf1=False):
    '''The content for a coordinate system in which the old one is (sx, sy) times the new one; sx, sy: of same magnitude.'''
    w = abs(sx)
    out, depth, free = [], 0, None      # free: depth of q at which a cm has taken over the scale
    texts = [m for m in re.findall(rb'\bBT\b.*?\bET\b', body, re.S)]
    block, size = -1, 1.0
    for op, a in operations(body):
        f = [float(x) if NUM.match(x) else None for x in a]
        on = free is None
        if op == b'q': depth += 1
        elif op == b'Q':
            depth -= 1
            if free is not None and depth < free: free = None
        if op in (b'm', b'l', b'c', b'v', b'y', b're') and on: a = [num(v / (sy if i % 2 else sx)) for i, v in enumerate(f)]
        elif op == b'w' and on: a = [num(f[0] / w)]
        elif op == b'd' and on: a = [x if v is None else num(v / w) for x, v in zip(a, f)]
        elif op == b'cm' and on:
            a = [num(v / (sy if i % 2 else sx)) for i, v in enumerate(f)]
            free = depth
        elif op == b'BT':
            block += 1
            size = 1.0
            plain = tf1 and len(re.findall(rb'\bTf\b', texts[block])) == 1 and not re.search(rb'\b(Td|TD|TL)\b|T\*', texts[block])
            if on and (sx, sy) != (1.0, 1.0) and not plain:
                out.append(b'BT %s 0 0 %s 0 0 Tm' % (num(1 / sx), num(1 / sy)))
                continue
        elif op == b'Tf' and plain: size, a = f[1], [a[0], b'1']
        elif op == b'Tm':
            if on: f = [v / (sy if i % 2 else sx) for i, v in enumerate(f)]
            a = [num(v * (size if i < 4 else 1)) for i, v in enumerate(f)]
        elif op in (b'Tc', b'Tw', b'Ts') and size != 1.0: a = [num(f[0] / size)]
        if cs and op in COLORS: out.append(COLORS[op] % b' '.join(a))
        else: out.append(b' '.join(a + [op]))
    return b'\n'.join(out)
