------------------------------- MODULE MC_Nexus -------------------------------
(* A file is written to, piece by piece, and read now and then.               *)
EXTENDS Nexus, Integers, Sequences, TLC, Json
CONSTANTS MaxSteps, Entries, Samples, Insts, Units_, Sizes, CompNames
VARIABLES fs, truth, mats, toks, hist
vars == <<fs, truth, mats, toks, hist>>
Init == fs = <<>> /\ truth = <<>> /\ mats = <<>> /\ toks = <<>> /\ hist = <<>>
Log(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
Step == Len(hist) + 1
NameSet == [entry : Entries, sample : Samples, instrument : Insts]
(* truth: pairs <<names, layout, measurement>>; of the newer layout an entry holds one *)
Clash(t, n, lay) == t[1].entry = n.entry /\ (IF lay = "psi/delta" /\ t[2] = lay THEN t[1].sample = n.sample \/ t[1].instrument = n.instrument ELSE TRUE)
Meas(a, w, u) == [aois |-> [i \in 1..a |-> 50 + i], unit |-> u, waves |-> [k \in 1..w |-> 1000 * Step + 10 * k],
                  psi |-> [i \in 1..a |-> [k \in 1..w |-> 10 * Step + i + k]], delta |-> [i \in 1..a |-> [k \in 1..w |-> 100 * Step + i + 7 * k]]]
Measure(n, lay, a, w, u) ==
  /\ \A i \in 1..Len(truth) : ~Clash(truth[i], n, lay) \/ (truth[i][1] = n /\ truth[i][2] = lay)
  /\ lay = "Psi/Delta" => ~Has(fs, TypePaths(n)[1])
  /\ fs' = Put(fs, Measured(Meas(a, w, u), n, lay))
  /\ truth' = Append(SelectSeq(truth, LAMBDA t : t[1] # n), <<n, lay, Meas(a, w, u)>>)
  /\ UNCHANGED <<mats, toks>> /\ Log([k |-> "measure", n |-> n, lay |-> lay, a |-> a, w |-> w, u |-> u])
(* things that are none of the reader's business *)
Decoy(e, s) == fs' = Put(fs, <<TextAt(<<e, s, "comment">>, "psi/delta"), DataAt(<<e, s, "plot", "wavelength">>, "nm", <<2>>, <<1, 2>>), Group(<<e, s, "notes">>, "NXnote")>>)
  /\ UNCHANGED <<truth, mats, toks>> /\ Log([k |-> "decoy", e |-> e, s |-> s])
OtherType(n) == (\A i \in 1..Len(truth) : truth[i][1].entry # n.entry) /\ fs' = Put(fs, <<TextAt(TypePaths(n)[1], "Mueller matrix")>>) /\ UNCHANGED <<truth, mats, toks>> /\ Log([k |-> "othertype", n |-> n])
Next == (\E n \in NameSet : \E lay \in Layouts : \E a \in Sizes : \E w \in Sizes : \E u \in Units_ : Measure(n, lay, a, w, u))
  \/ (\E e \in Entries : \E s \in Samples : Decoy(e, s)) \/ (\E n \in NameSet : OtherType(n))
Spec == Init /\ [][Next]_vars
View == <<fs, truth>>

(* what was written for some names is read with these names; nothing else is taken for a measurement of them *)
Held(n) == SelectSeq(truth, LAMBDA t : t[1] = n)
Expect(m) == LET W == Len(m.waves) IN [r \in 1..(Len(m.aois) * W) |-> LET i == ((r - 1) \div W) + 1 k == ((r - 1) - (i - 1) * W) + 1 IN
  [aoi |-> m.aois[i], wl |-> WaveNm(m.unit, m.waves[k]), psi |-> m.psi[i][k], delta |-> m.delta[i][k]]]
ReadBack == \A n \in NameSet : Held(n) # <<>> => Readable(fs, n) /\ Fits(fs, n) /\ Rows(fs, n) = Expect(Held(n)[1][3])
(* a newer file has one sample: only its name differs *)
Foreign == \A n \in NameSet : (\A i \in 1..Len(truth) : truth[i][1].entry # n.entry) => ~Readable(fs, n)
Every == \A n \in NameSet : Readable(fs, n) /\ Fits(fs, n) => Len(Rows(fs, n)) = Len(Get(fs, AnglePath(n)).data) * Len(Get(fs, WavePath(n, DataType(fs, n))).data)
NmKnown == \A n \in NameSet : Held(n) # <<>> => LET m == Held(n)[1][3] IN \A k \in 1..Len(m.waves) :
  IsUnit(m.unit) => Close(FromNm(m.unit, WaveNm(m.unit, m.waves[k])), m.waves[k], 0, "1e-14")

(* ---- materials ---- *)
Tok == [f1 |-> <<<<"name", "A">>, <<"op", "*">>, <<"name", "x">>>>, f2 |-> <<<<"sum", "sum">>, <<"op", "[">>, <<"name", "r">>, <<"op", "]">>>>]
Kinds == {"eps", "sum", "n", "table-n", "table-eps", "table-energy", "note"}
CompNodes(e, a, c, kd) ==
  LET p == <<e, a, c>>
      Fn(t, rep) == <<Group(p, "NXdispersion_function"), TextAt(Sub(p, "formula"), t), TextAt(Sub(p, "representation"), rep), TextAt(Sub(p, "wavelength_identifier"), "x"),
                      DataAt(Sub(p, "wavelength_unit"), "um", <<>>, <<1>>)>>
      One == <<Group(Sub(p, "pA"), "NXdispersion_single_parameter"), TextAt(Sub(Sub(p, "pA"), "name"), "A"), DataAt(Sub(Sub(p, "pA"), "value"), "", <<>>, <<Step>>)>>
      Many == <<Group(Sub(p, "pr"), "NXdispersion_repeated_parameter"), TextAt(Sub(Sub(p, "pr"), "name"), "r"), DataAt(Sub(Sub(p, "pr"), "values"), "", <<2>>, <<Step, 1>>)>>
      Tb(ax, u, xs, y, ys) == <<Group(p, "NXdispersion_table"), DataAt(Sub(p, ax), u, <<3>>, xs), DataAt(Sub(p, y), "", <<3>>, ys)>>
  IN CASE kd = "eps" -> Fn("f1", "eps") \o One
       [] kd = "sum" -> Fn("f2", "eps") \o Many
       [] kd = "n" -> Fn("f1", "n") \o One
       [] kd = "table-n" -> Tb("wavelength", "nm", <<300, 500, 900>>, "refractive_index", <<1, 2, Step>>)
       [] kd = "table-eps" -> Tb("wavelength", "um", <<"9/10", "1/2", "3/10">>, "dielectric_function", <<Step, 2, 1>>)
       [] kd = "table-energy" -> Tb("energy", "eV", <<1, 2, 5>>, "dielectric_function", <<Step, 2, 1>>)
       [] kd = "note" -> <<Group(p, "NXnote"), TextAt(Sub(p, "formula"), "f2")>>
(* what each contributes at 500 nm *)
Part(kd, st) == CASE kd = "eps" \/ kd = "n" -> N(st) (.) "1/2" [] kd = "sum" -> N(st) (+) 1 [] kd \in {"table-n", "table-eps"} -> N(2)
  [] kd = "table-energy" -> Interp(<<HC, HC (/) 2, HC (/) 5>>, <<st, 2, 1>>, 500) [] kd = "note" -> N(0)
RepKind(kd) == IF kd \in {"n", "table-n"} THEN "n" ELSE IF kd = "note" THEN "note" ELSE "eps"
Comp(e, a, c, kd) ==
  /\ \A i \in 1..Len(mats) : mats[i].e = e /\ mats[i].a = a => mats[i].c # c
  /\ fs' = Put(fs, <<Group(<<e>>, "NXentry"), Group(<<e, a>>, "NXdispersion")>> \o CompNodes(e, a, c, kd))
  /\ mats' = Append(mats, [e |-> e, a |-> a, c |-> c, kd |-> kd, st |-> Step])
  /\ UNCHANGED <<truth, toks>> /\ Log([k |-> "comp", e |-> e, a |-> a, c |-> c, kd |-> kd])
MatNext == \E e \in Entries : \E a \in Range(Axes) : \E c \in CompNames : \E kd \in Kinds : Comp(e, a, c, kd)
MatSpec == Init /\ [][MatNext]_vars
Of(e, a) == SelectSeq(mats, LAMBDA m : m.e = e /\ m.a = a /\ m.kd # "note")
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN N(0) ELSE Part(s[1].kd, s[1].st) (+) Sum(Tail(s))
Model == \A e \in EntriesOf(fs) : ~Refused(fs, e) /\ ~Open(fs, e) => \A a \in AxesOf(fs, e) :
  LET want == Sum(Of(e, a)) IN Close(AxisEps(fs, e, a, Tok, 500, FALSE).v, IF RepKind(Of(e, a)[1].kd) = "eps" THEN want ELSE Sq(want), "1e-9", "1e-9")
Readables == \A e \in EntriesOf(fs) : (Refused(fs, e) <=> LET A == {mats[i].a : i \in {j \in 1..Len(mats) : mats[j].e = e}} IN "dispersion_x" \notin A \/ A = {"dispersion_x", "dispersion_y"})
  /\ (Open(fs, e) <=> \/ Kind(AxesOf(fs, e)) = "none"
                      \/ \E a \in AxesOf(fs, e) : Of(e, a) = <<>> \/ Cardinality({RepKind(Of(e, a)[i].kd) : i \in 1..Len(Of(e, a))}) > 1
                                                 \/ Cardinality({i \in 1..Len(Of(e, a)) : Of(e, a)[i].kd \in {"table-n", "table-eps", "table-energy"}}) > 1)
(* the order of the nodes of a file makes no difference *)
Turn_(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Unordered == \A e \in EntriesOf(fs) : ~Refused(fs, e) /\ ~Open(fs, e) => \A a \in AxesOf(fs, e) :
  Close(AxisEps(fs, e, a, Tok, 600, FALSE).v, AxisEps(Turn_(fs), e, a, Tok, 600, FALSE).v, 0, "1e-12")
(* another entry or axis makes no difference either *)
Apart == \A e \in EntriesOf(fs) : ~Refused(fs, e) /\ ~Open(fs, e) => \A a \in AxesOf(fs, e) :
  Close(AxisEps(fs, e, a, Tok, 600, FALSE).v, AxisEps(SelectSeq(fs, LAMBDA f : Starts(f.path, <<e, a>>)), e, a, Tok, 600, FALSE).v, 0, "1e-12")

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
Skip == UNCHANGED <<fs, truth, mats, toks>>
GenKinds == Kinds \cup {"table-n", "n", "eps"}
Same(e, a) == SelectSeq(mats, LAMBDA m : m.e = e /\ m.a = a)
(* behaviours: measurements that replace one another and are read with all kinds of names; materials of mostly readable entries *)
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..12) : \E n \in Pick(NameSet) : \E lay \in Pick(Layouts) : \E a \in Pick(Sizes) : \E w \in Pick(Sizes) : \E u \in Pick(Units_) :
  \E ax \in Pick(Range(Axes)) : \E cn \in Pick(CompNames) : \E kd \in Pick(Kinds) :
  LET clash == (lay = "Psi/Delta" /\ Has(fs, TypePaths(n)[1])) \/ \E i \in 1..Len(truth) : Clash(truth[i], n, lay) /\ ~(truth[i][1] = n /\ truth[i][2] = lay) IN
  IF c <= 4 /\ ~clash THEN Measure(n, lay, a, w, u)
  ELSE IF c = 5 THEN Decoy(n.entry, n.sample)
  ELSE IF c = 6 /\ \A i \in 1..Len(truth) : truth[i][1].entry # n.entry THEN OtherType(n)
  ELSE IF c >= 7 \/ truth = <<>> THEN Skip /\ Log([k |-> "read", n |-> n])
  ELSE \E i \in Pick(1..Len(truth)) : Skip /\ Log([k |-> "read", n |-> truth[i][1]])
GenSpec == Init /\ [][GenNext]_vars
GenMatNext == Len(hist) < MaxSteps /\ \E c \in Pick(1..10) : \E e \in Pick(Entries) : \E an \in Pick(1..7) : \E cn \in Pick(CompNames) : \E kd \in Pick(Kinds) :
  LET ax == IF an <= 3 THEN "dispersion_x" ELSE IF an <= 5 \/ (an = 6 /\ e = "m2") THEN "dispersion_y" ELSE "dispersion_z"
      have == Same(e, ax)
      fits == \A i \in 1..Len(have) : have[i].c # cn /\ (have[i].kd = "note" \/ kd = "note" \/ (RepKind(have[i].kd) = RepKind(kd) /\ ~(have[i].kd \in {"table-n", "table-eps", "table-energy"} /\ kd \in {"table-n", "table-eps", "table-energy"}))) IN
  IF c <= 8 /\ (fits \/ (c = 1 /\ \A i \in 1..Len(have) : have[i].c # cn)) THEN Comp(e, ax, cn, kd)
  ELSE Skip /\ Log([k |-> "load"])
GenMatSpec == Init /\ [][GenMatNext]_vars
=============================================================================
