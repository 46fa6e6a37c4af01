----------------------------- MODULE MC_Framing ------------------------------
(* A streaming framer: samples arrive one by one, frames are emitted when full; *)
(* at the end the rest is padded.  It must equal the closed form; all small     *)
(* lengths, overlaps, delays.  Plus conversions of all small words.             *)
EXTENDS Framing, TLC, Json
CONSTANTS MaxN, MaxLen
VARIABLES len, ov, d, n, fifo, skip, rows, fin
(* fifo: samples of the current frame; skip: samples still to be dropped *)
X(k) == [i \in 1..k |-> 10 + i]
Init == /\ len \in 1..MaxLen /\ ov \in (-3)..(MaxLen - 1) /\ ov < len /\ d \in 0..2
        /\ n = -d /\ fifo = <<>> /\ skip = 0 /\ rows = <<>> /\ fin = FALSE
Push(v) == IF skip > 0 THEN fifo' = fifo /\ skip' = skip - 1 /\ rows' = rows
           ELSE LET f == Append(fifo, v) IN
                IF Len(f) < len THEN fifo' = f /\ skip' = 0 /\ rows' = rows
                ELSE rows' = Append(rows, f) /\ fifo' = LastN(f, Max2(ov, 0)) /\ skip' = Max2(-ov, 0)
Arrive == ~fin /\ n < MaxN /\ n' = n + 1 /\ Push(IF n < 0 THEN 0 ELSE 10 + n + 1) /\ UNCHANGED <<len, ov, d, fin>>
(* flush: an incomplete frame with new samples is padded *)
Flush == ~fin /\ n >= 1 /\ fin' = TRUE /\ UNCHANGED <<len, ov, d, n, skip, fifo>>
         /\ rows' = IF skip = 0 /\ (IF rows = <<>> THEN Len(fifo) > Max2(ov, 0) ELSE Len(fifo) > Max2(ov, 0))
                    THEN Append(rows, [i \in 1..len |-> IF i <= Len(fifo) THEN fifo[i] ELSE 0]) ELSE rows
Next == Arrive \/ Flush
(* before the flush the rows are the complete frames, afterwards all frames *)
Closed == n >= 1 => (IF fin THEN (d + n > Max2(ov, 0) => rows = Frames(X(n), len, ov, d, 0))
                     ELSE rows = Frames(X(n), len, ov, d, 1))
OneRagged == n >= 1 => Len(Frames(X(n), len, ov, d, 0)) - Len(Frames(X(n), len, ov, d, 1)) \in {0, 1}
Inverse1 == \A k \in 1..4 : \A v \in 0..(Pow2(k) - 1) : ValMsb(BitsMsb(v, k)) = v
Emit == (fin /\ d + n > Max2(ov, 0)) =>
          PrintT("@@" \o ToJson([len |-> len, ov |-> ov, d |-> d, x |-> X(n), rows |-> rows, crows |-> Frames(X(n), len, ov, d, 1)]))
==============================================================================
