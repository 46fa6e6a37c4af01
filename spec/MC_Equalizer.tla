---------------------------- MODULE MC_Equalizer -----------------------------
(* every input sequence over a small alphabet and every cut into chunks; inputs odd, first tap odd, all else even: *)
(* no output ever lies on a decision threshold                                                                     *)
EXTENDS Equalizer, TLC, Json
CONSTANTS MaxLen
VARIABLES c, x, y, cuts, s
Cfg(f, d, lv, osr, ph) == [f |-> f, d |-> d, lv |-> lv, osr |-> osr, phase |-> ph, St |-> 4, xs0 |-> Zeros(Len(f) - 1), dec0 |-> Zeros(Len(d))]
NRZ == <<-4, 4>>
PAM4 == <<-12, -4, 4, 12>>
Cfgs == << Cfg(<<5>>, <<2>>, NRZ, 1, 0), Cfg(<<5, -2>>, <<2, -4>>, NRZ, 1, 0), Cfg(<<3, 4, 2>>, <<>>, NRZ, 1, 0),
           Cfg(<<-1, 4>>, <<4, 2, -2>>, PAM4, 1, 0), Cfg(<<1, 2>>, <<6>>, PAM4, 1, 0),
           Cfg(<<5>>, <<4>>, NRZ, 2, 0), Cfg(<<5>>, <<4>>, NRZ, 2, 1), Cfg(<<3, 2>>, <<4, 2>>, PAM4, 3, 1), Cfg(<<3, 2>>, <<4>>, NRZ, 3, 2) >>
C == Cfgs[c]
Init == c \in 1..Len(Cfgs) /\ x = <<>> /\ y = <<>> /\ cuts = <<>> /\ s = EqStart(C)
Sample(v) == LET r == EqStep(C, s, v) IN x' = Append(x, v) /\ y' = Append(y, r.y) /\ s' = r.s /\ UNCHANGED <<c, cuts>>
(* the caller takes the memories and starts a new call with them; one sample per symbol only *)
Cut == /\ C.osr = 1 /\ Len(x) > 0 /\ (IF Len(cuts) = 0 THEN TRUE ELSE cuts[Len(cuts)] # Len(x)) /\ Len(cuts) < 2
       /\ cuts' = Append(cuts, Len(x)) /\ s' = [s EXCEPT !.n = 0, !.ys = <<>>] /\ UNCHANGED <<c, x, y>>
Next == Cut \/ (Len(x) < MaxLen /\ \E v \in {-9, -3, 1, 7} : Sample(v))
(* closed form over the whole history, independent of the cuts *)
X(i) == IF i >= 1 THEN x[i] ELSE 0
D == [k \in 1..Len(x) |-> NearestLv(y[k], C.lv, C.St)]
\* sample n (1-based) sees the decisions of instants t (0-based) = phase + k osr with t + osr div 2 < n - 1
Instants(n) == {t \in 0..(n - 2) : t % C.osr = C.phase /\ t + (C.osr \div 2) <= n - 2}
DecAt(n, j) == LET T == Instants(n)
                   r == {t \in T : Cardinality({u \in T : u > t}) = j - 1} IN
               IF r = {} THEN 0 ELSE D[(CHOOSE t \in r : TRUE) + 1]
Closed == \A n \in 1..Len(x) :
            y[n] = Sum([i \in 1..Len(C.f) |-> C.f[i] * X(n + 1 - i)]) - Sum([j \in 1..Len(C.d) |-> C.d[j] * DecAt(n, j)])
NoTie == \A n \in 1..Len(y) : \A i \in 1..(Len(C.lv) - 1) : 2 * y[n] # (C.lv[i] + C.lv[i + 1]) * C.St
Memory == s.xs = LastN(C.xs0 \o x, Len(C.f) - 1)
Emit == Len(x) = MaxLen => PrintT("@@" \o ToJson([c |-> C, x |-> x, y |-> y, cuts |-> cuts, dec |-> s.dec, xs |-> s.xs]))
==============================================================================
