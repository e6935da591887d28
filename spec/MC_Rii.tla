--------------------------------- MODULE MC_Rii ---------------------------------
(* A catalogue grows, line by line; it is looked into all the time.            *)
EXTENDS Rii, Json
CONSTANTS MaxSteps, Ids, Heads, Authors_, Ranges
MCRanges == {<<"0.25", "0.5">>, <<"0.3", "2">>}
VARIABLES cat, hist
vars == <<cat, hist>>
Init == cat = <<>> /\ hist = <<>>
Plain == [plain |-> TRUE, authors |-> "", year |-> "", note |-> "", comment1 |-> "", type1 |-> "", lo1 |-> "", hi1 |-> "", type2 |-> "", lo2 |-> "", hi2 |-> "", comment2 |-> ""]
Infos == {Plain} \cup {[Plain EXCEPT !.plain = FALSE, !.authors = a, !.year = "1999", !.type1 = "n", !.lo1 = r[1], !.hi1 = r[2], !.comment1 = c] : a \in Authors_, r \in Ranges, c \in {"", "film"}}
Tokens == {[t |-> k, id |-> i, name |-> i] : k \in {"shelf", "book"}, i \in Ids} \cup {[t |-> k, name |-> h] : k \in {"shelfdiv", "bookdiv", "pagediv"}, h \in Heads}
  \cup {[t |-> "page", id |-> i, info |-> f, name |-> "name", data |-> i] : i \in Ids, f \in Infos}
Put(k) == Fits(Here(cat), k) /\ Len(hist) < MaxSteps /\ cat' = Append(cat, k) /\ hist' = Append(hist, [k |-> k.t])
Next == \E k \in Tokens : Put(k)
Spec == Init /\ [][Next]_vars
View == cat

R == Rows(cat)
PagesAt == {i \in 1..Len(cat) : cat[i].t = "page"}
Last(i, ts) == LET S == {j \in 1..(i - 1) : cat[j].t \in ts} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A h \in S : h <= j
Nth(n) == CHOOSE i \in PagesAt : Cardinality({j \in PagesAt : j < i}) = n - 1
(* a row for every page, in order, under the headings that stand over it *)
EveryPage == Len(R) = Cardinality(PagesAt) /\ \A n \in 1..Len(R) :
  LET i == Nth(n)  b == Last(i, {"book"})  s == Last(i, {"shelf"})  bd == Last(b, {"bookdiv", "shelf"})  pd == Last(i, {"pagediv", "book"}) IN
  /\ R[n].page = cat[i].id /\ R[n].book = cat[b].id /\ R[n].shelf = cat[s].id /\ s < b
  /\ R[n].book_divider = (IF cat[bd].t = "bookdiv" THEN cat[bd].name ELSE None)
  /\ R[n].page_type = (IF cat[pd].t = "pagediv" THEN cat[pd].name ELSE None)
(* what was there stays, at its place *)
Grows == [][Len(Rows(cat)) <= Len(Rows(cat')) /\ \A i \in 1..Len(Rows(cat)) : Rows(cat)[i].page = Rows(cat')[i].page /\ Rows(cat)[i].book = Rows(cat')[i].book]_vars
(* ranges: of a page with a given one only, and searching with no wavelength does not ask for it *)
Searches == \A q \in Ids \cup Authors_ : \A c \in {"book", "author", "page", "shelf"} :
  LET all == Exact(R, {q}, {c}, {}) IN
  /\ \A w \in {300, 600} : Exact(R, {q}, {c}, {w}) \subseteq all /\ \A i \in all : R[i].author = None => i \notin Exact(R, {q}, {c}, {w})
  /\ Exact(R, {q}, {c}, {300, 600}) = Exact(R, {q}, {c}, {300}) \cap Exact(R, {q}, {c}, {600})
  /\ all = {i \in 1..Len(R) : R[i][c] = q}
  /\ Closed(R, all, {c}, {}) /\ Closed(R, Exact(R, {q}, {c}, {300}), {c}, {300})
Unions == \A q, p \in Ids : Exact(R, {q, p}, {"book", "page"}, {}) = ((Exact(R, {q}, {"book"}, {}) \cup Exact(R, {p}, {"book"}, {})) \cup (Exact(R, {q}, {"page"}, {}) \cup Exact(R, {p}, {"page"}, {})))
Lookups == \A b, p \in Ids : (Found(R, b, p) => PathOf(R, b, p) = "data/" \o p) /\ (Hits(R, b, p) = Exact(R, {b}, {"book"}, {}) \cap Exact(R, {p}, {"page"}, {}))

(* ---- values ---- *)
Rel(t, c) == [type |-> t, coef |-> c, rows |-> <<>>]
Tab(t, r) == [type |-> t, coef |-> <<>>, rows |-> r]
Xs == {"0.3", "0.55", "1.7"}
C0 == {"0", "1.2"}
Eq(a, b) == Close(a, b, "1e-30", "1e-30")
ASSUME \A x \in Xs : \A c \in C0 : \A a, b \in {"0.7", "0.2"} :
  (* formulas 1 and 2 differ by the square of the resonance *)
  /\ Eq(Squared(Rel("formula 1", <<c, a, b, b, a>>), x), Squared(Rel("formula 2", <<c, a, Sq(b), b, Sq(a)>>), x))
  (* formula 4 with two terms is formula 2 *)
  /\ Eq(Squared(Rel("formula 4", <<N(c) (+) 1, a, 2, b, 1, b, 2, a, 1>>), x), Squared(Rel("formula 2", <<c, a, b, b, a>>), x))
  (* and with powers only formula 3, of which formula 5 is the square root *)
  /\ Eq(Squared(Rel("formula 4", <<c, 0, 0, 0, 0, 0, 0, 0, 0, a, 2, b, "-4">>), x), Squared(Rel("formula 3", <<c, a, 2, b, "-4">>), x))
  /\ Eq(IndexOf(Rel("formula 5", <<c, a, 2, b, "-4">>), x), Squared(Rel("formula 3", <<c, a, 2, b, "-4">>), x))
  /\ Eq(Squared(Rel("formula 1", <<c>>), x), N(1) (+) c)
  (* an index and an extinction make the same as the table of both *)
  /\ LET n == Tab("tabulated n", <<<<"0.2", a>>, <<"0.6", 2>>, <<2, b>>>>)  k == Tab("tabulated k", <<<<2, b>>, <<"0.2", 0>>, <<"0.6", a>>>>)
         nk == Tab("tabulated nk", <<<<"0.2", a, 0>>, <<2, b, b>>, <<"0.6", 2, a>>>>) IN
     Eq(Eps(<<n, k>>, N(x) (.) 1000), Eps(<<nk>>, N(x) (.) 1000))
  (* the square root of the squared index squared is itself *)
  /\ Eq(Eps(<<Rel("formula 1", <<c, a, b>>), Tab("tabulated k", <<<<"0.2", 0>>, <<2, 0>>>>)>>, N(x) (.) 1000), Eps(<<Rel("formula 1", <<c, a, b>>)>>, N(x) (.) 1000))

(* ---- behaviours ---- *)
Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
GenTok(k, i, h, f) == CASE k \in {"shelf", "book"} -> [t |-> k, id |-> i, name |-> i] [] k \in {"shelfdiv", "bookdiv", "pagediv"} -> [t |-> k, name |-> h] [] k = "page" -> [t |-> k, id |-> i, info |-> f, name |-> "name", data |-> i]
Kinds == <<"page", "page", "page", "page", "page", "book", "book", "pagediv", "bookdiv", "shelf", "shelfdiv">>
GenNext == Len(hist) < MaxSteps /\ \E n \in Pick(1..11) : \E i \in Pick(Ids) : \E j \in Pick(Ids) : \E h \in Pick(Heads) : \E f \in Pick(Infos) : \E ask \in Pick(1..3) : \E c \in Pick(FuzzyColumns) : \E fz \in Pick({TRUE, FALSE, FALSE}) : \E w \in Pick({0, 0, 1, 2}) :
  LET here == Here(cat)
      k0 == IF here.shelf = None THEN "shelf" ELSE IF here.book = None THEN (IF Kinds[n] = "bookdiv" THEN "bookdiv" ELSE "book") ELSE Kinds[n]
      tok == GenTok(k0, i, h, f) IN
  IF Len(hist) <= (2 * MaxSteps) \div 3 THEN Fits(here, tok) /\ cat' = Append(cat, tok) /\ hist' = Append(hist, [k |-> tok.t, id |-> i, head |-> h, author |-> f.authors, plain |-> f.plain])
  ELSE /\ UNCHANGED cat
       /\ IF ask <= 2 /\ R # <<>> THEN \E r \in Pick(1..Len(R)) : \E stray \in Pick(1..8) : hist' = Append(hist, [k |-> "get", b |-> IF stray = 1 THEN j ELSE R[r].book, p |-> IF stray = 2 THEN j ELSE R[r].page])
          ELSE hist' = Append(hist, [k |-> "search", q |-> IF ask = 1 THEN <<i, j>> ELSE <<i>>, c |-> c, fuzzy |-> fz, w |-> w])
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
