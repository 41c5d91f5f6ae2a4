----------------------------- MODULE MC_BigNat -----------------------------
(* Laws of BigNat, and a table that must not depend on the Java override. *)
EXTENDS BigNat, TLC, FiniteSets
VARIABLES a, b
Samples == { <<>>, <<1>>, <<2>>, <<7>>, <<9999>>, <<0,1>>, <<1,1>>, <<9999,9999>>,
             <<0,0,1>>, <<1,0,5>>, <<1234,5678,9012>>, <<7296,4770,2036,4467,1844>>,
             <<0,0,0,0,0,1>>, <<9999,9999,9999,9999,9999>>, NPow(2, 53), NPow(10, 23), NPow(7, 40) }
Init == a \in Samples /\ b \in Samples
Next == UNCHANGED <<a, b>>
Wf(x) == \A i \in 1..Len(x) : x[i] \in 0..(BASE-1) /\ (x = <<>> \/ x[Len(x)] # 0)
Laws ==
  /\ Wf(NAdd(a, b)) /\ Wf(NMul(a, b))
  /\ NAdd(a, b) = NAdd(b, a)
  /\ NMul(a, b) = NMul(b, a)
  /\ NSub(NAdd(a, b), b) = a
  /\ NMul(a, NAdd(b, <<1>>)) = NAdd(NMul(a, b), a)
  /\ (NCmp(a, b) = -1) = (NCmp(b, a) = 1)
  /\ (NCmp(a, b) = 0) = (a = b)
  /\ NCmp(NAdd(a, <<1>>), a) = 1
  /\ b # <<>> =>
       LET qr == NDivMod(a, b)
       IN /\ NAdd(NMul(qr[1], b), qr[2]) = a
          /\ NCmp(qr[2], b) = -1
          /\ Wf(qr[1]) /\ Wf(qr[2])
          /\ NDiv(a, b) = qr[1] /\ NMod(a, b) = qr[2]
  /\ NFromDigits(NDigits(a, 10)) = a
  /\ a # <<>> => /\ NCmp(NPow(2, NBitLen(a)), a) = 1
                 /\ NCmp(NPow(2, NBitLen(a) - 1), a) < 1
  /\ Len(NDigits(a, 2)) = NBitLen(a)
  /\ \A n \in 0..6 : NPow(10, n) = NFromInt(<<1,10,100,1000,10000,100000,1000000>>[n+1])
  /\ NToInt(NFromInt(2147483647)) = 2147483647
Table == PrintT(<<"T", a, b, NAdd(a,b), NMul(a,b), NCmp(a,b), NDigits(a, 16), NDigits(a, 8),
                  IF b = <<>> THEN b ELSE NDivMod(a,b), NBitLen(a), NPow(3, NBitLen(b))>>)
=============================================================================
