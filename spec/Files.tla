-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Measurement files.  A file is a sequence of lines; a line is            *)
(*   <<"text">>  <<"trig">>  <<"unit", u>>                                 *)
(*   <<"rec", x, aoi, psi, delta>>   one measured record                   *)
(*   <<"other">>                     a record of another quantity          *)
(*   <<"angles", <<aoi...>>>>        the angles of a grid                  *)
(*   <<"grid", x, <<<<psi, delta>>...>>>>  one wavelength at all of them   *)
(*   <<"mm", x, <<16 elements>>>>    a Mueller matrix                      *)
(* The reader goes through the lines of a file of a given format.          *)
(***************************************************************************)
EXTENDS Units

Woollam == {"wvase", "cease"}
Wrapped == {"spectraray", "accurion"}
Formats == Woollam \cup Wrapped \cup {"mmatrix"}

(* the reader: phase, last line of the preamble, angles of the grid, rows, refused *)
Start == [phase |-> "preamble", last |-> <<"text">>, angles |-> <<>>, rows |-> <<>>, bad |-> FALSE]
UnitOf(s) == IF s.last[1] = "unit" THEN s.last[2] ELSE "unknown"
(* an axis declared in no unit of light keeps its numbers *)
Wavelength(u, x) == IF IsUnit(u) THEN ToNm(u, x) ELSE N(x)
Row(fmt, u, x, aoi, psi, delta) ==
  [aoi |-> N(aoi), wl |-> IF u = "unknown" THEN N("nan") ELSE Wavelength(u, x), psi |-> N(psi), delta |-> IF fmt \in Wrapped THEN Turn(delta, -180) ELSE N(delta)]
GridRows(fmt, s, ln) == [i \in 1..Len(s.angles) |-> Row(fmt, "nm", ln[2], s.angles[i], ln[3][i][1], ln[3][i][2])]
ReadLine(fmt, s, ln) ==
  IF s.bad THEN s
  ELSE IF fmt \in Woollam THEN
       IF ln[1] = "rec" THEN
            LET u == UnitOf(s) IN [s EXCEPT !.phase = "data", !.rows = Append(@, Row(fmt, u, ln[2], ln[3], ln[4], ln[5]))]
       ELSE IF s.phase = "preamble" THEN IF ln[1] = "trig" THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.last = ln]
       ELSE s
  ELSE IF fmt = "accurion" THEN IF ln[1] = "rec" THEN [s EXCEPT !.rows = Append(@, Row(fmt, "nm", ln[2], ln[3], ln[4], ln[5]))] ELSE s
  ELSE IF fmt = "spectraray" THEN
       IF ln[1] = "angles" THEN [s EXCEPT !.angles = ln[2]] ELSE IF ln[1] = "grid" THEN [s EXCEPT !.rows = @ \o GridRows(fmt, s, ln)] ELSE s
  ELSE IF ln[1] = "mm" THEN [s EXCEPT !.rows = Append(@, [wl |-> N(ln[2]), m |-> ln[3]])] ELSE s
Read(fmt, lines) ==
  LET f[i \in 0..Len(lines)] == IF i = 0 THEN Start ELSE ReadLine(fmt, f[i - 1], lines[i]) IN f[Len(lines)]
(* a file without a measured record is none *)
Refused(fmt, s) == s.bad \/ (fmt \in Woollam /\ s.phase = "preamble")
=============================================================================
