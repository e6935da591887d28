-------------------------------- MODULE Wave --------------------------------
(***************************************************************************)
(* A subject is asked for wavelengths.  Its whole observable behaviour is  *)
(* one function from wavelengths to values: learned when a wavelength is   *)
(* asked alone, and from then on the only thing any call may return - the  *)
(* image of the asked sequence, whatever its order, length, repetitions or *)
(* number type.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLE ans            \* wavelength -> value, as far as it is known

Known(w) == w \in DOMAIN ans
NewSubject == ans' = <<>>
Learn(w, v) == ans' = (w :> v) @@ ans
Image(ws) == [i \in DOMAIN ws |-> ans[ws[i]]]
=============================================================================
