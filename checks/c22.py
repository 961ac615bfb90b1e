"""C22: physical key codes."""
from checks.data import *

EXPLANATION = ('The codes of all keys of the shipped keyboards are enumerated per platform, compared pairwise, and compared across platforms by the '
               'published correspondence of scancodes (set 1), X keycodes (scancode plus eight) and macOS virtual key codes. Every key of every '
               'shipped layout with text needs a code on every platform.')
ASSUMPTIONS = ['key codes are those of the evdev X driver and of the macOS ANSI/ISO keyboards']
PLATFORMS = ('windows', 'xorg', 'macos', 'keyman')
EXTENDED = {0x5b: 133, 0x5c: 134, 0x5d: 135, 0x38: 108, 0x1d: 105, 0x1c: 104, 0x35: 106}
# scancode -> macOS virtual key code
MAC = {(41,): 50, (2,): 18, (3,): 19, (4,): 20, (5,): 21, (6,): 23, (7,): 22, (8,): 26, (9,): 28, (10,): 25, (11,): 29, (12,): 27, (13,): 24, (14,): 51,
       (15,): 48, (16,): 12, (17,): 13, (18,): 14, (19,): 15, (20,): 17, (21,): 16, (22,): 32, (23,): 34, (24,): 31, (25,): 35, (26,): 33, (27,): 30,
       (28,): 36, (58,): 57, (30,): 0, (31,): 1, (32,): 2, (33,): 3, (34,): 5, (35,): 4, (36,): 38, (37,): 40, (38,): 37, (39,): 41, (40,): 39, (43,): 42,
       (42,): 56, (86,): 10, (44,): 6, (45,): 7, (46,): 8, (47,): 9, (48,): 11, (49,): 45, (50,): 46, (51,): 43, (52,): 47, (53,): 44, (54,): 60,
       (29,): 59, (56,): 58, (57,): 49, (224, 91): 55, (224, 92): 54, (224, 93): 110, (224, 56): 61, (224, 29): 62}
SPACE = {'Fl_space', 'Fr_space'}
GENERIC = {'SHIFT', 'ALT', 'CTRL'}


def run(ck):
    kbs, lays = definitions('keyboards'), definitions('layouts')
    if not kbs:
        raise Gone('keyboard definitions')
    for n, (path, kb) in kbs.items():
        if isinstance(kb, Exception):
            ck.violated('a definition can be read', path, f'{kb}'[:200])
            continue
        ck.part(n, keyboard, ck, n, path, kb, lays)


def keyboard(ck, n, path, kb, lays):
    seen, codes = {}, {p: {} for p in PLATFORMS}
    have = {}
    for r, h, pos, b in buttons(kb):
        name = b['name']
        at = f'{path}:{b.lines.get("name", 1)}'
        ck.count('keys')
        ck.expect(name not in seen, 'key names are unique', at, name, f'{name} is defined twice')
        seen[name] = at
        ck.expect(not b.dups, 'a definition repeats no key', at, name, f'{name}: {b.dups}')
        sc = b.get('scancode') or {}
        if sc:
            ck.expect(not sc.dups, 'a definition repeats no key', at, name, f'{name}: {sc.dups}')
        have[name] = set(sc)
        for p, c in sc.items():
            if p not in codes:
                continue
            c = tuple(c) if isinstance(c, list) else c
            ck.expect(isinstance(c, {'windows': tuple, 'keyman': str}.get(p, int)), 'codes are of the type of their platform', at, f'{name} {p}', f'{name} {p}: {c!r}')
            o = codes[p].get(c)
            ok = o is None or {o, name} <= SPACE or p == 'keyman' and c in GENERIC
            ck.expect(ok, 'no two keys share a code', at, f'{name} {p} {c}', f'{name} and {o} share the code {c} on {p}')
            codes[p].setdefault(c, name)
        w = sc.get('windows')
        if isinstance(w, list):
            w = tuple(w)
            rule = 'the codes of a key denote the same physical key'
            if 'xorg' in sc:
                want = w[0] + 8 if len(w) == 1 else EXTENDED.get(w[1]) if w[0] == 0xe0 else None
                ck.expect(True if want is None else sc['xorg'] == want, rule, at, f'{name} xorg', f'{name}: scancode {w} is X keycode {want}, not {sc["xorg"]}')
            if 'macos' in sc and w in MAC:
                ck.expect(sc['macos'] == MAC[w], rule, at, f'{name} macos', f'{name}: scancode {w} is macOS key {MAC[w]}, not {sc["macos"]}')
    used = {}
    for ln, (lp, lay) in lays.items():
        if isinstance(lay, Exception):
            continue
        for ms, t in layers(lay):
            for k in t:
                used.setdefault(k, ln)
    for k, ln in sorted(used.items()):
        for p in PLATFORMS:
            if k in have:
                ck.expect(p in have[k], 'every key with text has a code', seen[k], f'{k} {p}', f'{k}, used by {ln}, has no code on {p}')
    # scancode order follows the position: rows of letter keys are numbered from left to right
    for r, row in enumerate(kb['rows']):
        ks = [b for half in row for b in half if b.get('kind') == 'letter' and isinstance((b.get('scancode') or {}).get('windows'), list)]
        ks = [b for b in ks if 2 <= b['scancode']['windows'][0] <= 0x35 and b['scancode']['windows'][0] not in (41, 43) and len(b['scancode']['windows']) == 1]
        for a, b in zip(ks, ks[1:]):
            x, y = a['scancode']['windows'][0], b['scancode']['windows'][0]
            ck.expect(x < y, 'scancodes follow the position of the keys', f'{path}:{b.lines.get("name", 1)}', f'{a["name"]} {b["name"]}',
                      f'{a["name"]} ({x}) lies left of {b["name"]} ({y})')
