"""What a straight move does on a land raster, stated independently of how the code walks it."""
import numpy as np


def is_land(G, p):
    x, y = int(p[0]), int(p[1])
    return 0 <= x < G.shape[0] and 0 <= y < G.shape[1] and G[x, y] != 0


def on(G, p):
    return 0 <= p[0] < G.shape[0] and 0 <= p[1] < G.shape[1]


def pixels(a, b):
    """for k = 0..n: the pixel(s) nearest the straight line from a to b (two where the line passes exactly between)"""
    (x0, y0), (x1, y1) = map(lambda p: (int(p[0]), int(p[1])), (a, b))
    dx, dy = x1 - x0, y1 - y0
    n = max(abs(dx), abs(dy))
    out = []
    for k in range(n + 1):
        if n == 0:
            out.append([(x0, y0)])
            continue
        fx, fy = dx * k, dy * k            # over n
        px = near(fx, n)
        py = near(fy, n)
        out.append([(x0 + i, y0 + j) for i in px for j in py])
    return out


def near(f, n):
    q, r = divmod(f, n)
    if 2 * r < n:
        return [q]
    if 2 * r > n:
        return [q + 1]
    return [q, q + 1]


def must_hit(G, a, b):
    """the move certainly runs into land"""
    pp = pixels(a, b)
    for c in pp:
        if all(is_land(G, p) for p in c):
            return True
    for c, d in zip(pp, pp[1:]):
        if len(c) == 1 and len(d) == 1:
            (x, y), (u, v) = c[0], d[0]
            if x != u and y != v and on(G, (x, y)) and on(G, (u, v)) and is_land(G, (x, v)) and is_land(G, (u, y)):
                return True
    return False


def may_hit(G, a, b):
    """the move touches land at all (the pixels on the way, or beside a diagonal step)"""
    pp = pixels(a, b)
    for c in pp:
        if any(is_land(G, p) for p in c):
            return True
    for c, d in zip(pp, pp[1:]):
        for (x, y) in c:
            for (u, v) in d:
                if is_land(G, (x, v)) and is_land(G, (u, y)):
                    return True
    return False


def hit_ok(G, a, b, prev, hit):
    """the reported hit is land, reached from water just before it, with nothing but water earlier on the way"""
    a, b, prev, hit = [tuple(int(v) for v in p[:2]) for p in (a, b, prev, hit)]
    if not is_land(G, hit):
        return 'hit pixel is not land'
    if prev == hit:
        return '' if hit == a else 'no last water pixel'
    if max(abs(prev[0] - hit[0]), abs(prev[1] - hit[1])) != 1:
        return 'last water pixel is not next to the hit'
    if is_land(G, prev):
        return 'last water pixel is land'
    for p in (prev, hit):
        if not (min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])):
            return 'hit is not between the ends of the move'
    ax = 0 if abs(b[0] - a[0]) >= abs(b[1] - a[1]) else 1
    kp = abs(prev[ax] - a[ax])
    pp = pixels(a, b)
    if prev not in pp[kp]:
        return 'last water pixel is not on the way'
    kh = abs(hit[ax] - a[ax])
    if not (kp <= kh <= kp + 1):
        return 'hit is not on the way'
    if kh == kp + 1 and hit not in pp[kh] and not any(is_land(G, (prev[0], q[1])) and is_land(G, (q[0], prev[1])) for q in pp[kh]):
        return 'hit is not on the way'
    for k in range(kp + 1):
        if all(is_land(G, p) for p in pp[k]):
            return 'land earlier on the way was passed over'
    return ''
