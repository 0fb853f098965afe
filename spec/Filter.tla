------------------------------- MODULE Filter -------------------------------
(* Subscription filters: what matches.                                      *)
EXTENDS Bytes
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasTag(ev, name, vals) == \E i \in 1..Len(ev.tags) : LET t == ev.tags[i] IN Len(t) >= 2 /\ t[1] = name /\ t[2] \in Range(vals)
Zero(n) == NumZero(n)
Cond(f, ev) ==
    /\ f.ids # <<>> => \E i \in 1..Len(f.ids) : Prefix(f.ids[i], ev.id)
    /\ f.authors # <<>> => \E i \in 1..Len(f.authors) : Prefix(f.authors[i], ev.pubkey)
    /\ f.kinds # <<>> => ev.kind \in Range(f.kinds)
    /\ f.e # <<>> => HasTag(ev, "e", f.e)
    /\ f.p # <<>> => HasTag(ev, "p", f.p)
    /\ \A i \in 1..Len(f.g) : f.g[i].v # <<>> => HasTag(ev, f.g[i].n, f.g[i].v)
    /\ ~Zero(f.since) => NumLeq(f.since, ev.at)
    /\ ~Zero(f.until) => NumLeq(ev.at, f.until)
\* a single-letter tag member with an empty list: matching nothing and not constraining are both allowed
EmptyG(f) == \E i \in 1..Len(f.g) : f.g[i].v = <<>>
Matches(f, ev) == IF ~Cond(f, ev) THEN {FALSE} ELSE IF EmptyG(f) THEN BOOLEAN ELSE {TRUE}
\* with search: the callback decides, and without a callback a search never matches
MatchesSearch(f, ev, cb, ans) == {m /\ (f.search = "" \/ (cb /\ ans)) : m \in Matches(f, ev)}
AnyOf(sets) == {\E i \in DOMAIN sets : c[i] : c \in {q \in [DOMAIN sets -> BOOLEAN] : \A i \in DOMAIN sets : q[i] \in sets[i]}}

\* well-formed filters (as in a REQ): prefixes of lower-case hex, full ids in tag filters
HexChars == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}
LowHex(v) == \A i \in 1..Len(v) : SubSeq(v, i, i) \in HexChars
PrefixOk(v) == Len(v) \in 1..64 /\ LowHex(v)
IdOk(v) == Len(v) = 64 /\ LowHex(v)
MaxSearch == 65536
BadFields(f) == (IF \A v \in Range(f.ids) : PrefixOk(v) THEN {} ELSE {"ids"}) \cup (IF \A v \in Range(f.authors) : PrefixOk(v) THEN {} ELSE {"authors"})
                \cup (IF \A v \in Range(f.e) : IdOk(v) THEN {} ELSE {"#e"}) \cup (IF \A v \in Range(f.p) : IdOk(v) THEN {} ELSE {"#p"})
                \cup (IF Len(f.search) <= MaxSearch THEN {} ELSE {"search"})
\* sizes the parser accepts
MaxValues == 256
SizesOk(f) == /\ Len(f.ids) <= MaxValues /\ Len(f.authors) <= MaxValues /\ Len(f.kinds) <= MaxValues /\ Len(f.e) <= MaxValues /\ Len(f.p) <= MaxValues
              /\ \A i \in 1..Len(f.g) : Len(f.g[i].v) <= MaxValues
              /\ Len(f.search) <= MaxSearch
\* the same filter, whatever the order of its tag members
SameFilter(f, g) == /\ \A k \in {"ids", "authors", "kinds", "e", "p", "since", "until", "limit", "search"} : f[k] = g[k]
                    /\ Range(f.g) = Range(g.g) /\ Len(f.g) = Len(g.g)
=============================================================================
