"""JSON text with arbitrary formatting: whitespace, string escapes, member order."""
def ws(rng, p=.15): return "".join(rng.choice(" \n\t\r") for _ in range(rng.randrange(0, 3))) if rng.random() < p else ""
def string(s, rng, style):
    out = ['"']
    if len(s) > 3000: return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    for ch in s:
        o = ord(ch); r = rng.random()
        if ch in '"\\': out.append("\\" + ch if r < .7 else "\\u%04x" % o)
        elif ch in "\b\f\n\r\t": out.append({"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}[ch] if r < .7 else "\\u%04X" % o)
        elif o < 32: out.append("\\u%04x" % o)
        elif ch == "/" and r < .5: out.append("\\/")
        elif r < style: out.append(("\\u%04x\\u%04x" % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))) if o > 0xffff else "\\u%04x" % o)
        else: out.append(ch)
    out.append('"')
    return "".join(out)
class Raw(str): pass
def render(v, rng, style=None, shuffle=True):
    if style is None: style = rng.choice((0, 0, 0.05, 0.5))
    w = lambda: ws(rng)
    R = lambda x: render(x, rng, style, shuffle)
    if isinstance(v, Raw): return str(v)
    if isinstance(v, bool): return "true" if v else "false"
    if v is None: return "null"
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, bytes): return string(v.decode("utf8"), rng, style)
    if isinstance(v, str): return string(v, rng, style)
    if isinstance(v, (list, tuple)): return w() + "[" + w() + (w() + "," + w()).join(R(x) for x in v) + w() + "]" + w()
    items = list(v.items())
    if shuffle and rng.random() < .7: rng.shuffle(items)
    return w() + "{" + ",".join(w() + string(k, rng, style) + w() + ":" + w() + R(x) + w() for k, x in items) + w() + "}" + w()
def utext(rng, cap):
    from . import gen as G
    t = G.text(rng, cap).decode("utf8", "ignore").replace("\0", "")
    if rng.random() < .15: t += rng.choice(("é", "𝄞", "\u2028", "日本", "\uffff", "\x7f", "\U00010000", "\U00020000", "\U0010ffff"))
    return t
