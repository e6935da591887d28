---------------------------------- MODULE Rii ----------------------------------
(***************************************************************************)
(* A refractiveindex.info database: a catalogue and data files.            *)
(* The catalogue is a sequence of tokens, in the order of the file:        *)
(*   [t |-> "shelf" | "book", id, name]   opens a shelf, a book            *)
(*   [t |-> "shelfdiv" | "bookdiv" | "pagediv", name]   headings           *)
(*   [t |-> "page", id, info, name, data]     one page of the book          *)
(* A data file is a sequence of relations                                  *)
(*   [type, coef |-> numbers, rows |-> tuples of numbers]                  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

None == "<NA>"
(* what the name of a page tells: [plain, authors, year, note, comment1, type1, lo1, hi1, type2, lo2, hi2, comment2, dash], "" for nothing *)
PageName(i, mu) ==
  i.authors \o " " \o i.year \o i.note \o ": " \o (IF i.comment1 = "" THEN "" ELSE i.comment1 \o "; ") \o i.type1 \o " " \o i.lo1 \o i.dash \o i.hi1 \o " " \o mu
  \o (IF i.type2 = "" THEN "" ELSE ", " \o i.type2 \o " " \o i.lo2 \o i.dash \o i.hi2 \o " " \o mu) \o (IF i.comment2 = "" THEN "" ELSE "; " \o i.comment2)
Comment(i) == IF i.comment1 = "" THEN i.comment2 ELSE IF i.comment2 = "" THEN i.comment1 ELSE i.comment1 \o " " \o i.comment2
Row(c, p) ==
  [shelf |-> c.shelf, shelf_longname |-> c.shelfname, book_divider |-> c.bdiv, book |-> c.book, book_longname |-> c.bookname, page |-> p.id, page_type |-> c.pdiv,
   author |-> IF p.info.plain THEN None ELSE p.info.authors, year |-> IF p.info.plain THEN None ELSE p.info.year,
   comment |-> IF p.info.plain THEN p.name ELSE Comment(p.info),
   lower |-> IF p.info.plain THEN None ELSE N(p.info.lo1) (.) 1000, upper |-> IF p.info.plain THEN None ELSE N(p.info.hi1) (.) 1000,
   path |-> "data/" \o p.data]
(* where one stands in the catalogue *)
Top == [shelf |-> None, shelfname |-> None, bdiv |-> None, book |-> None, bookname |-> None, pdiv |-> None]
At_(c, k) == CASE k.t = "shelf" -> [Top EXCEPT !.shelf = k.id, !.shelfname = k.name]
              [] k.t = "shelfdiv" -> Top
              [] k.t = "bookdiv" -> [c EXCEPT !.bdiv = k.name, !.book = None, !.bookname = None, !.pdiv = None]
              [] k.t = "book" -> [c EXCEPT !.book = k.id, !.bookname = k.name, !.pdiv = None]
              [] k.t = "pagediv" -> [c EXCEPT !.pdiv = k.name]
              [] k.t = "page" -> c
Fits(c, k) == CASE k.t \in {"shelf", "shelfdiv"} -> TRUE [] k.t \in {"book", "bookdiv"} -> c.shelf # None [] k.t \in {"page", "pagediv"} -> c.book # None
RECURSIVE Walk(_, _, _, _)
Walk(cat, i, c, rows) == IF i > Len(cat) THEN [at |-> c, rows |-> rows]
  ELSE Walk(cat, i + 1, At_(c, cat[i]), IF cat[i].t = "page" THEN Append(rows, Row(c, cat[i])) ELSE rows)
Rows(cat) == Walk(cat, 1, Top, <<>>).rows
Here(cat) == Walk(cat, 1, Top, <<>>).at

(* ----------------------------- looking up ----------------------------- *)
Hits(rows, b, p) == {i \in 1..Len(rows) : rows[i].book = b /\ rows[i].page = p}
Found(rows, b, p) == Cardinality(Hits(rows, b, p)) = 1
PathOf(rows, b, p) == rows[CHOOSE i \in Hits(rows, b, p) : TRUE].path
TextColumns == {"shelf", "shelf_longname", "book_divider", "book", "book_longname", "page", "page_type", "author", "comment", "path"}
FuzzyColumns == {"book_divider", "book", "book_longname", "page", "author", "comment"}
Matches(row, qs, cols) == \E c \in cols : row[c] # None /\ row[c] \in qs
InRange(row, w) == row.lower # None /\ NLeq(row.lower, w) /\ NLeq(w, row.upper)
Covers(row, ws) == \A w \in ws : InRange(row, w)
Exact(rows, qs, cols, ws) == {i \in 1..Len(rows) : Matches(rows[i], qs, cols) /\ Covers(rows[i], ws)}
(* an approximate search: rows come with the others that have the same value in some column searched *)
Closed(rows, res, cols, ws) == \A i \in res : \E c \in cols : rows[i][c] # None /\ \A j \in 1..Len(rows) : rows[j][c] = rows[i][c] /\ Covers(rows[j], ws) => j \in res

(* ------------------------------- values ------------------------------- *)
Cf(r, k) == IF k <= Len(r.coef) THEN N(r.coef[k]) ELSE N(0)
Pairs(r, from) == IF Len(r.coef) < from + 1 THEN {} ELSE {k \in from..(Len(r.coef) - 1) : (k - from) - 2 * ((k - from) \div 2) = 0}
SumOver(S, f(_)) == LET RECURSIVE go(_)
                        go(T) == IF T = {} THEN N(0) ELSE LET k == CHOOSE k \in T : TRUE IN Force(f(k) (+) go(T \ {k})) IN go(S)
Pow(x, y) == IF NEq(y, 0) THEN N(1) ELSE IF NEq(x, 0) THEN N(0) ELSE IF NEq(y, NFloor(y)) THEN NPow(N(x), NToInt(y)) ELSE NExp(N(y) (.) NLn(x))
Powers(r, from, x) == SumOver(Pairs(r, from), LAMBDA k : Cf(r, k) (.) Pow(x, Cf(r, k + 1)))
IsTable(r) == r.type \in {"tabulated nk", "tabulated n", "tabulated k"}
Known == {"tabulated nk", "tabulated n", "tabulated k", "formula 1", "formula 2", "formula 3", "formula 4", "formula 5"}
IsIndex(r) == IsTable(r) \/ r.type = "formula 5"
(* squared index of a formula; x: wavelength in micrometres *)
Squared(r, x) ==
  CASE r.type = "formula 1" -> N(1) (+) Cf(r, 1) (+) SumOver(Pairs(r, 2), LAMBDA k : (Cf(r, k) (.) Sq(x)) (/) (Sq(x) (-) Sq(Cf(r, k + 1))))
    [] r.type = "formula 2" -> N(1) (+) Cf(r, 1) (+) SumOver(Pairs(r, 2), LAMBDA k : (Cf(r, k) (.) Sq(x)) (/) (Sq(x) (-) Cf(r, k + 1)))
    [] r.type = "formula 3" -> Cf(r, 1) (+) Powers(r, 2, x)
    [] r.type = "formula 4" -> Cf(r, 1) (+) SumOver({k \in {2, 6} : k <= Len(r.coef)}, LAMBDA k : (Cf(r, k) (.) Pow(x, Cf(r, k + 1))) (/) (Sq(x) (-) Pow(Cf(r, k + 2), Cf(r, k + 3)))) (+) Powers(r, 10, x)
(* rows of tables: <<wavelength in micrometres, values ...>>, in any order *)
Interp(xs, ys, x) ==
  LET lo == {i \in 1..Len(xs) : NLeq(xs[i], x)}  hi == {i \in 1..Len(xs) : NLeq(x, xs[i])} IN
  IF lo = {} \/ hi = {} THEN N("nan")
  ELSE LET i == CHOOSE i \in lo : \A j \in lo : NLeq(xs[j], xs[i])
           k == CHOOSE k \in hi : \A j \in hi : NLeq(xs[k], xs[j]) IN
       IF NEq(xs[i], xs[k]) THEN N(ys[i]) ELSE N(ys[i]) (+) ((N(ys[k]) (-) ys[i]) (.) ((N(x) (-) xs[i]) (/) (N(xs[k]) (-) xs[i])))
Column(r, k) == [i \in 1..Len(r.rows) |-> r.rows[i][k]]
IndexOf(r, x) ==
  CASE r.type = "tabulated nk" -> Cx(Interp(Column(r, 1), Column(r, 2), x), Interp(Column(r, 1), Column(r, 3), x))
    [] r.type = "tabulated n" -> Interp(Column(r, 1), Column(r, 2), x)
    [] r.type = "tabulated k" -> Cx(N(0), Interp(Column(r, 1), Column(r, 2), x))
    [] r.type = "formula 5" -> Cf(r, 1) (+) Powers(r, 2, x)
    [] OTHER -> NSqrt(Squared(r, x))
(* permittivity of an entry at a wavelength in nm: parts of the index add up *)
Refused(data) == \E i \in 1..Len(data) : data[i].type \notin Known
Eps(data, w) ==
  LET x == N(w) (/) 1000 IN
  IF Len(data) = 1 /\ ~IsIndex(data[1]) THEN Squared(data[1], x)
  ELSE Sq(SumOver(1..Len(data), LAMBDA i : IndexOf(data[i], x)))
(* several formulas for the squared index, none for the index: not specified *)
Open(data) == Len(data) = 0 \/ (Len(data) > 1 /\ \A i \in 1..Len(data) : ~IsIndex(data[i]))
=============================================================================
