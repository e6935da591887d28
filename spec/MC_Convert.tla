------------------------------ MODULE MC_Convert ------------------------------
(* Chains of conversions of a beam, and the table conversions.            *)
EXTENDS Convert, Json
CONSTANTS MaxSteps, Free
VARIABLES what, value, lam, hist
vars == <<what, value, lam, hist>>
Result == INSTANCE Result WITH jr <- <<>>, jt <- <<>>, vec <- <<>>, pc <- <<>>, range <- <<0, 0>>
Beams == <<N("633"), N("193.4"), N("1/3"), N("25000")>>
Init == what = "wavelength" /\ \E i \in 1..Len(Beams) : lam = Beams[i] /\ value = Beams[i] /\ hist = << <<"beam", i>> >>
Convert == \E fn \in DOMAIN Conversions : \E c \in Conversions[fn] :
  /\ c[1] = what /\ what' = c[2] /\ value' = Apply(fn, value) /\ UNCHANGED lam
  /\ Len(hist) <= MaxSteps /\ hist' = Append(hist, <<fn>>)
Next == Convert
Spec == Init /\ [][Next]_vars
View == <<what, lam, Len(hist)>>
\* any chain of conversions gives the quantity of the same beam
SameBeam == Close(value, Of(what, lam), 0, "1e-50")
UnitsAgree == Close(Of("energy", lam), FromNm("eV", lam), 0, "1e-50") /\ Close(Of("frequency", lam), FromNm("Hz", lam), 0, "1e-50")
           /\ Close(Of("wavenumber", lam), FromNm("1/cm", lam), 0, "1e-50")

(* table conversions, as assumptions over a grid *)
Psis == {"0", "0.1", "20", "45", "73.5", "90"}
Deltas == {"0", "12.5", "90", "179", "180", "-33", "-180", "271", "359"}
Epses == {Cx("9/4", "0"), Cx("-10", "1/2"), Cx("13.5", "4"), Cx("1/2", "2"), Cx("2", "1e-9")}
Aois == {"30", "55", "70", "85"}
ASSUME \A e \in Epses, a \in Aois : Close(PseudoEps(BareRho(e, a), a), e, "1e-30", "1e-30")
ASSUME \A p \in Psis, d \in Deltas :
  LET M == Result!Mueller(<< <<NSin(Deg(p)) (.) NExp(Cx(0, NNeg(Deg(d)))), N(0)>>, <<N(0), NCos(Deg(p))>> >>) IN
  \A i, j \in 1..4 : Close(M[i][j], IsoMueller(p, d)[i][j], "1e-30", 0)
\* a psi/delta pair and the same pair turned by 360 describe one sample
ASSUME \A p \in Psis, d \in Deltas : Close(IsoMueller(p, d)[3][4], IsoMueller(p, N(d) (+) 360)[3][4], "1e-30", 0)

Emit == Len(hist) = MaxSteps => PrintT("@@BEH|" \o ToJson(hist))
Pick(S) == {RandomElement(S)}
GenInit == what = "wavelength" /\ lam = N(1) /\ value = N(1) /\ \E i \in Pick(1..(Len(Beams) + Free)) : hist = << <<"beam", i>> >>
GenNext == Len(hist) < MaxSteps /\ \E c \in Pick({<<fn, d>> \in (DOMAIN Conversions) \X (Quantities \X Quantities) : d \in Conversions[fn] /\ d[1] = what}) :
  what' = c[2][2] /\ hist' = Append(hist, <<c[1], c[2][1], c[2][2]>>) /\ UNCHANGED <<value, lam>>
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
