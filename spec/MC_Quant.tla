------------------------------ MODULE MC_Quant -------------------------------
(* all small fixed-point formats; inputs walk through and beyond the grid in quarter steps of the finest grid *)
EXTENDS Symbols, TLC, Json
CONSTANTS MaxB, MaxF, U
VARIABLES b, f, ty, x
Init == b \in 1..MaxB /\ f \in -MaxF..MaxF /\ ty \in {"u", "s", "ss"} /\ x = (QLo(b, ty) - 2) * QStep(f, U)
Inc == Max2(1, QStep(f, U) \div 4)
Next == x < (QHi(b, ty) + 2) * QStep(f, U) /\ x' = x + Inc /\ UNCHANGED <<b, f, ty>>
(* the closed form agrees with "nearest grid value", hence saturation, idempotence and half-step error *)
Agree == \A y \in QNearest(x, b, f, ty, U) : QuantOk(x, y, b, f, ty, U)
Exact == \A y \in {(QLo(b, ty) + i) * QStep(f, U) : i \in 0..(QHi(b, ty) - QLo(b, ty))} :
            QuantOk(x, y, b, f, ty, U) => y \in QNearest(x, b, f, ty, U)
Emit == PrintT("@@" \o ToJson([b |-> b, f |-> f, ty |-> ty, x |-> x, set |-> SetToSeq(QNearest(x, b, f, ty, U))]))
==============================================================================
