--------------------------------- MODULE Nexus ---------------------------------
(***************************************************************************)
(* NeXus files.  A file is a sequence of nodes                             *)
(*   [path |-> sequence of names, cls |-> NX_class, unit |-> units,        *)
(*    text |-> text of a text field, shape, data |-> numbers, row by row]  *)
(* (groups have no text and no data).  Reading measurements: the names of  *)
(* entry, sample and instrument select the data; the data type names the   *)
(* layout.  Reading materials: every entry describes one, by one dispersion *)
(* per axis, each the sum of its functions and tables.                     *)
(***************************************************************************)
EXTENDS Formula, Functions, FiniteSets

Node(p, c, u, t, s, d) == [path |-> p, cls |-> c, unit |-> u, text |-> t, shape |-> s, data |-> d]
Group(p, c) == Node(p, c, "", "", <<>>, <<>>)
TextAt(p, t) == Node(p, "", "", t, <<>>, <<>>)
DataAt(p, u, s, d) == Node(p, "", u, "", s, d)
Idx(fs, p) == {i \in 1..Len(fs) : fs[i].path = p}
Has(fs, p) == Idx(fs, p) # {}
Get(fs, p) == fs[CHOOSE i \in Idx(fs, p) : TRUE]
Starts(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q

(* ------------------------- measurements ------------------------- *)
(* n: [entry, sample, instrument] *)
TypePaths(n) == <<<<n.entry, n.sample, "data_type">>, <<n.entry, "data_collection", "data_type">>>>
DataType(fs, n) == IF Has(fs, TypePaths(n)[1]) THEN Get(fs, TypePaths(n)[1]).text ELSE IF Has(fs, TypePaths(n)[2]) THEN Get(fs, TypePaths(n)[2]).text ELSE "nothing"
Layouts == {"psi/delta", "Psi/Delta"}
AnglePath(n) == <<n.entry, n.instrument, "angle_of_incidence">>
WavePath(n, lay) == IF lay = "psi/delta" THEN <<n.entry, n.instrument, "spectrometer", "wavelength">> ELSE <<n.entry, "data_collection", "wavelength_spectrum">>
DataPath(n, lay) == IF lay = "psi/delta" THEN <<n.entry, n.sample, "measured_data">> ELSE <<n.entry, "data_collection", "measured_data">>
(* units: without a usable one, wavelengths are in angstrom *)
WaveNm(u, x) == IF IsUnit(u) THEN ToNm(u, x) ELSE N(x) (/) 10
Readable(fs, n) == LET lay == DataType(fs, n) IN
  lay \in Layouts /\ Has(fs, AnglePath(n)) /\ Has(fs, WavePath(n, lay)) /\ Has(fs, DataPath(n, lay))
Fits(fs, n) == LET lay == DataType(fs, n)  sh == Get(fs, DataPath(n, lay)).shape IN
  Len(sh) = (IF lay = "psi/delta" THEN 5 ELSE 3) /\ SubSeq(sh, Len(sh) - 2, Len(sh)) = <<Len(Get(fs, AnglePath(n)).data), 2, Len(Get(fs, WavePath(n, lay)).data)>>
(* one row for every angle and wavelength; of the older layout the first time and the first sample *)
Rows(fs, n) ==
  LET lay == DataType(fs, n)
      a == Get(fs, AnglePath(n))  w == Get(fs, WavePath(n, lay))  d == Get(fs, DataPath(n, lay))
      A == Len(a.data)  W == Len(w.data)
      Cell(i, o, k) == d.data[((i - 1) * 2 + o) * W + k]
  IN [r \in 1..(A * W) |->
       LET i == ((r - 1) \div W) + 1  k == ((r - 1) - (i - 1) * W) + 1 IN
       [aoi |-> a.data[i], wl |-> WaveNm(w.unit, w.data[k]), psi |-> Cell(i, 0, k), delta |-> Cell(i, 1, k)]]
(* the nodes that hold a measurement m: [aois, unit, waves, psi, delta] (psi[i][k]) *)
Interleave(m) == LET W == Len(m.waves) IN
  [j \in 1..(2 * Len(m.aois) * W) |-> LET b == (j - 1) \div W  k == ((j - 1) - b * W) + 1  i == (b \div 2) + 1 IN IF b - 2 * (b \div 2) = 0 THEN m.psi[i][k] ELSE m.delta[i][k]]
Measured(m, n, lay) ==
  <<Group(<<n.entry>>, "NXentry"), DataAt(AnglePath(n), "degrees", <<Len(m.aois)>>, m.aois), DataAt(WavePath(n, lay), m.unit, <<Len(m.waves)>>, m.waves),
    DataAt(DataPath(n, lay), "", IF lay = "psi/delta" THEN <<1, 1, Len(m.aois), 2, Len(m.waves)>> ELSE <<Len(m.aois), 2, Len(m.waves)>>, Interleave(m)),
    TextAt(IF lay = "psi/delta" THEN TypePaths(n)[1] ELSE TypePaths(n)[2], lay)>>
(* writing replaces what is at the same paths *)
Without(fs, ps) == SelectSeq(fs, LAMBDA f : f.path \notin ps)
Put(fs, nodes) == Without(fs, {nodes[i].path : i \in 1..Len(nodes)}) \o nodes

(* --------------------------- materials --------------------------- *)
Axes == <<"dispersion_x", "dispersion_y", "dispersion_z">>
EntriesOf(fs) == {fs[i].path[1] : i \in 1..Len(fs)}
AxesOf(fs, e) == {a \in Range(Axes) : Has(fs, <<e, a>>)}
Kind(axes) == IF axes = {"dispersion_x"} THEN "IsotropicMaterial"
              ELSE IF axes = {"dispersion_x", "dispersion_z"} THEN "UniaxialMaterial"
              ELSE IF axes = Range(Axes) THEN "BiaxialMaterial" ELSE "none"
Comps(fs, e, a) == {i \in 1..Len(fs) : Len(fs[i].path) = 3 /\ Starts(fs[i].path, <<e, a>>) /\ fs[i].cls \in {"NXdispersion_function", "NXdispersion_table"}}
Sub(c, name) == Append(c, name)
Params(fs, c, cls) == {i \in 1..Len(fs) : Starts(fs[i].path, c) /\ fs[i].cls = cls}
NameOf(fs, i) == Get(fs, Sub(fs[i].path, "name")).text
Singles(fs, c) == LET P == Params(fs, c, "NXdispersion_single_parameter") IN
  [x \in {NameOf(fs, i) : i \in P} |-> Get(fs, Sub(fs[CHOOSE i \in P : NameOf(fs, i) = x].path, "value")).data[1]]
RepData(fs, c) == LET P == Params(fs, c, "NXdispersion_repeated_parameter") IN
  [x \in {NameOf(fs, i) : i \in P} |-> Get(fs, Sub(fs[CHOOSE i \in P : NameOf(fs, i) = x].path, "values")).data]
Sets(r) == IF DOMAIN r = {} THEN <<>> ELSE LET k == Len(r[CHOOSE x \in DOMAIN r : TRUE]) IN [j \in 1..k |-> [x \in DOMAIN r |-> r[x][j]]]
IsTable(fs, c) == Get(fs, c).cls = "NXdispersion_table"
Rep(fs, c) == IF ~IsTable(fs, c) THEN Get(fs, Sub(c, "representation")).text
              ELSE IF Has(fs, Sub(c, "refractive_index")) THEN "n" ELSE IF Has(fs, Sub(c, "dielectric_function")) THEN "eps" ELSE "none"
(* a component that cannot be read *)
Spoiled(fs, c) ==
  IF IsTable(fs, c) THEN ~(Has(fs, Sub(c, "wavelength")) \/ Has(fs, Sub(c, "energy"))) \/ Rep(fs, c) = "none"
  ELSE ~Has(fs, Sub(c, "representation")) \/ ~Has(fs, Sub(c, "formula")) \/ Has(fs, Sub(c, "energy_identifier")) \/ Rep(fs, c) \notin {"eps", "n"}
(* a material of two axes is one of x and z *)
Refused(fs, e) == "dispersion_x" \notin AxesOf(fs, e) \/ AxesOf(fs, e) = {"dispersion_x", "dispersion_y"} \/ \E a \in AxesOf(fs, e) : \E i \in Comps(fs, e, a) : Spoiled(fs, fs[i].path)
(* what is not specified: representations mixed, tables added, no component *)
Open(fs, e) == Kind(AxesOf(fs, e)) = "none" \/ \E a \in AxesOf(fs, e) : LET C == Comps(fs, e, a) IN
  C = {} \/ Cardinality({Rep(fs, fs[i].path) : i \in C}) > 1 \/ Cardinality({i \in C : IsTable(fs, fs[i].path)}) > 1

(* table axis in nm; asis: as if the unit did not matter *)
TableX(fs, c, asis) == IF Has(fs, Sub(c, "energy")) THEN LET f == Get(fs, Sub(c, "energy")) IN [k \in 1..Len(f.data) |-> HC (/) f.data[k]]
  ELSE LET f == Get(fs, Sub(c, "wavelength")) IN [k \in 1..Len(f.data) |-> IF asis \/ ~IsUnit(f.unit) THEN N(f.data[k]) ELSE ToNm(f.unit, f.data[k])]
TableY(fs, c) == (IF Rep(fs, c) = "n" THEN Get(fs, Sub(c, "refractive_index")) ELSE Get(fs, Sub(c, "dielectric_function"))).data
Interp(xs, ys, w) ==
  LET lo == {i \in 1..Len(xs) : NLeq(xs[i], w)}  hi == {i \in 1..Len(xs) : NLeq(w, xs[i])} IN
  IF lo = {} \/ hi = {} THEN N("nan")
  ELSE LET i == CHOOSE i \in lo : \A j \in lo : NLeq(xs[j], xs[i])
           k == CHOOSE k \in hi : \A j \in hi : NLeq(xs[k], xs[j]) IN
       IF NEq(xs[i], xs[k]) THEN N(ys[i]) ELSE N(ys[i]) (+) ((N(ys[k]) (-) ys[i]) (.) ((N(w) (-) xs[i]) (/) (xs[k] (-) xs[i])))
(* tokens: the formulas of the file as tokens *)
CompValue(fs, c, tokens, w, asis) ==
  IF IsTable(fs, c) THEN LET v == Interp(TableX(fs, c, asis), TableY(fs, c), w) IN [v |-> v, e |-> NAbs(v) (.) "1e-12", z |-> FALSE]
  ELSE LET u == Get(fs, Sub(c, "wavelength_unit")) IN
       Value(Parse(tokens[Get(fs, Sub(c, "formula")).text]).t,
             [axis |-> Get(fs, Sub(c, "wavelength_identifier")).text, x |-> AxisValue(u.unit, w) (/) u.data[1], single |-> Singles(fs, c), rep |-> Sets(RepData(fs, c))], 0)
RECURSIVE Total(_, _, _, _, _)
Total(fs, C, tokens, w, asis) == IF C = {} THEN Cl(N(0), N(0), FALSE)
  ELSE LET i == CHOOSE i \in C : TRUE
           a == CompValue(fs, fs[i].path, tokens, w, asis)  b == Total(fs, C \ {i}, tokens, w, asis) IN
       IF Ok(a) /\ Ok(b) THEN AddV(a, b, "+") ELSE Undef
(* permittivity along an axis *)
AxisEps(fs, e, a, tokens, w, asis) ==
  LET C == Comps(fs, e, a)  t == Total(fs, C, tokens, w, asis) IN
  IF ~Ok(t) THEN Undef ELSE IF Rep(fs, fs[CHOOSE i \in C : TRUE].path) = "eps" THEN t ELSE MulV(t, t)
(* axes of the tensor *)
TensorAxis(kind, k) == IF kind = "IsotropicMaterial" THEN "dispersion_x" ELSE IF kind = "UniaxialMaterial" THEN <<"dispersion_x", "dispersion_x", "dispersion_z">>[k] ELSE Axes[k]
ScaledTables(fs, e) == \E a \in AxesOf(fs, e) : \E i \in Comps(fs, e, a) : IsTable(fs, fs[i].path) /\ ~Has(fs, Sub(fs[i].path, "energy"))
  /\ LET u == Get(fs, Sub(fs[i].path, "wavelength")).unit IN u \in DOMAIN Lengths /\ u \notin {"nm", "nanometer"}
=============================================================================
