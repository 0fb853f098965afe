"""Filters: generation, JSON form, reading and building the struct."""
import ctypes
from . import gen as G
from .api import P, L, B, BIG
FT = "nostr_filter_t"
def read(api, fp):
    arr = lambda f: [L(x) for x in api.strs(api.get(fp, FT, f), api.get(fp, FT, f + "_count"))]
    g = []; gp = api.get(fp, FT, "generic_tags"); sz = api.size("nostr_generic_tag_filter_t")
    for i in range(api.get(fp, FT, "generic_tags_count")):
        q = gp + i * sz
        g.append(dict(n=chr(api.get(q, "nostr_generic_tag_filter_t", "tag_name")), v=[L(x) for x in api.strs(api.get(q, "nostr_generic_tag_filter_t", "values"), api.get(q, "nostr_generic_tag_filter_t", "values_count"))]))
    sp = api.get(fp, FT, "search")
    return dict(ids=arr("ids"), authors=arr("authors"), kinds=api.i32s(api.get(fp, FT, "kinds"), api.get(fp, FT, "kinds_count")), e=arr("e_tags"), p=arr("p_tags"),
                g=g, since=BIG(api.get(fp, FT, "since", True)), until=BIG(api.get(fp, FT, "until", True)), limit=api.get(fp, FT, "limit", True),
                search=L(api.cstr(sp)) if sp else "")
EMPTY = dict(ids=[], authors=[], kinds=[], e=[], p=[], g=[], since=0, until=0, limit=0, search="")
def spec(f):
    """python source filter -> trace record"""
    l = lambda s: s.encode("utf8").decode("latin1")
    return dict(ids=[l(x) for x in f["ids"]], authors=[l(x) for x in f["authors"]], kinds=f["kinds"], e=[l(x) for x in f["e"]], p=[l(x) for x in f["p"]],
                g=[dict(n=n, v=[l(x) for x in v]) for n, v in f["g"]], since=BIG(f["since"]), until=BIG(f["until"]), limit=f["limit"], search=l(f["search"]))
def obj(f, rng=None):
    """source filter -> JSON object (empty members are sometimes spelled out)"""
    o = {}
    put = lambda k, v, e: o.__setitem__(k, v) if (v != e or (rng and rng.random() < .1)) else None
    put("ids", f["ids"], []); put("authors", f["authors"], []); put("kinds", f["kinds"], []); put("#e", f["e"], []); put("#p", f["p"], [])
    for n, v in f["g"]: o["#" + n] = v
    put("since", f["since"], 0); put("until", f["until"], 0); put("limit", f["limit"], 0); put("search", f["search"], "")
    if rng and rng.random() < .2:
        o[rng.choice(("IDs", "Kinds", "#", "#ee", "#1", "x", "#_", "SINCE", "e", "##t"))] = rng.choice(([], ["zz"], 5, None, "q"))
    return o
