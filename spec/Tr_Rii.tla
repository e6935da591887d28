--------------------------------- MODULE Tr_Rii ---------------------------------
(***************************************************************************)
(* Recorded use of a refractiveindex.info database against Rii.            *)
(*  catalog cat files texts mu rows err   a database is opened; rows: its   *)
(*                                 catalogue                                *)
(*  search q cols fuzzy ws err res rows   res: places in the catalogue       *)
(*  get b p err w everr eps mat    an entry: permittivity of the dispersion  *)
(*                                 and of the material                       *)
(*  text b p err ref comm                                                    *)
(***************************************************************************)
EXTENDS Rii, TraceBase, Functions
VARIABLES cat, files, texts
vars == <<l, cat, files, texts>>
Init == l = 1 /\ cat = <<>> /\ files = <<>> /\ texts = <<>>
RowOk(got, want) == (\A c \in DOMAIN want \ {"lower", "upper"} : got[c] = want[c])
  /\ \A c \in {"lower", "upper"} : IF want[c] = None THEN got[c] = None ELSE got[c] # None /\ Close(got[c], want[c], 0, "1e-12")
CatalogEv == /\ Is("catalog") /\ cat' = Rows(Ev.cat) /\ files' = Ev.files /\ texts' = Ev.texts
  /\ Chk("recorded", \A i \in 1..Len(Ev.cat) : Ev.cat[i].t # "page" \/ Ev.cat[i].info.plain \/ Ev.cat[i].name = PageName(Ev.cat[i].info, Ev.mu), "page name")
  /\ LET want == Rows(Ev.cat) IN
     IF Ev.err # "" THEN Chk("catalogue-raises", FALSE, Ev.err)
     ELSE IF Len(Ev.rows) # Len(want) THEN Chk("catalogue", FALSE, ToString(Len(Ev.rows)) \o " rows, specified " \o ToString(Len(want)))
     ELSE \A i \in 1..Len(want) : Chk("catalogue", RowOk(Ev.rows[i], want[i]), "row " \o ToString(i) \o " " \o ToString(Ev.rows[i]))
Keep == UNCHANGED <<cat, files, texts>>
Cols == IF Ev.cols = <<"all">> THEN (IF Ev.fuzzy THEN FuzzyColumns ELSE TextColumns) ELSE Range(Ev.cols)
SearchEv == Is("search") /\ Keep /\
  LET qs == Range(Ev.q)  ws == Range(Ev.ws)  res == Range(Ev.res)  want == Exact(cat, qs, Cols, ws) IN
  IF Ev.err # "" THEN Chk("search-raises", FALSE, Ev.err)
  ELSE /\ Chk("repeated", Len(Ev.res) = Cardinality(res) /\ \A i \in 1..(Len(Ev.res) - 1) : Ev.res[i] < Ev.res[i + 1], ToString(Ev.res))
       /\ \A i \in 1..Len(Ev.res) : Chk("row", Ev.res[i] \in 1..Len(cat) /\ RowOk(Ev.rows[i], cat[Ev.res[i]]), ToString(Ev.res[i]))
       /\ Chk("range", \A i \in res : i > Len(cat) \/ Covers(cat[i], ws), ToString(res))
       /\ IF ~Ev.fuzzy THEN Chk("search", res = want, ToString(res) \o ", specified " \o ToString(want))
          ELSE /\ Chk("fuzzy-misses", want \subseteq res, ToString(res) \o ", specified at least " \o ToString(want))
               /\ Chk("fuzzy-partial", Closed(cat, res \cap (1..Len(cat)), Cols, ws), ToString(res))
(* a misspelt word of the catalogue finds what the word finds *)
NearEv == Is("near") /\ Keep /\
  LET want == Exact(cat, {Ev.word}, Cols, {}) IN
  IF Ev.err # "" THEN Chk("search-raises", FALSE, Ev.err)
  ELSE Chk("fuzzy-near", want \subseteq Range(Ev.res), Ev.q[1] \o " for " \o Ev.word \o ": " \o ToString(Range(Ev.res)) \o ", specified at least " \o ToString(want))
GetEv == Is("get") /\ Keep /\
  IF ~Found(cat, Ev.b, Ev.p) THEN Chk("unknown-accepted", Ev.err = "ValueError", Ev.b \o " " \o Ev.p \o ": " \o Ev.err)
  ELSE LET data == files[PathOf(cat, Ev.b, Ev.p)] IN
    IF Refused(data) THEN Chk("type-accepted", Ev.err = "ValueError", data[Len(data)].type \o ": " \o Ev.err)
    ELSE IF Open(data) THEN TRUE
    ELSE IF Ev.err # "" THEN Chk("get-raises", FALSE, Ev.b \o " " \o Ev.p \o " " \o data[1].type \o ": " \o Ev.err)
    ELSE IF Ev.everr # "" THEN Chk("evaluation-raises", FALSE, Ev.everr)
    ELSE (Len(data) = 1 /\ IsTable(data[1]) =>
            Chk("stored-range", Len(Ev.range) = Len(data[1].rows) /\ \A i \in 1..Len(data[1].rows) : \E j \in 1..Len(Ev.range) : Close(Ev.range[j], N(data[1].rows[i][1]) (.) 1000, 0, "1e-12"), ToString(Ev.range)))
      /\ \A k \in 1..Len(Ev.w) : LET want == Force(Eps(data, Ev.w[k])) IN
      IF ~IsNum(want) THEN TRUE
      ELSE /\ Chk("value", Close(Ev.eps[k], want, "1e-11", "1e-9"), data[1].type \o " at " \o Show(Ev.w[k]) \o ": " \o Show(Ev.eps[k]) \o ", specified " \o Show(want))
           /\ Chk("material", Close(Ev.mat[k], want, "1e-11", "1e-9"), data[1].type \o " at " \o Show(Ev.w[k]) \o ": " \o Show(Ev.mat[k]) \o ", specified " \o Show(want))
(* nothing alike *)
FarEv == Is("far") /\ Keep /\ Chk("fuzzy-far", Ev.err = "" /\ Ev.res = <<>>, Ev.err \o " " \o ToString(Ev.res))
TextEv == Is("text") /\ Keep /\
  IF ~Found(cat, Ev.b, Ev.p) THEN Chk("unknown-accepted", Ev.err = "ValueError", Ev.b \o " " \o Ev.p)
  ELSE LET want == texts[PathOf(cat, Ev.b, Ev.p)] IN
    IF want.enc # "utf8" THEN TRUE ELSE Chk("text", Ev.err = "" /\ Ev.ref = want.ref /\ Ev.comm = want.comm, Ev.err \o " " \o Ev.ref \o " " \o Ev.comm)
Next == CatalogEv \/ SearchEv \/ NearEv \/ FarEv \/ GetEv \/ TextEv
Spec == Init /\ [][Next]_vars
=================================================================================
