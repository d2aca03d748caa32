--------------------------------- MODULE Utf8 --------------------------------
(* The UTF-8 encoding form (RFC 3629).                                       *)
EXTENDS LexBase
Scalar(r) == (r >= 0 /\ r < 55296) \/ (r > 57343 /\ r <= 1114111)
Surrogate(r) == r >= 55296 /\ r <= 57343
Encode(r) == IF r < 128 THEN <<r>>
             ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
             ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
             ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
Cont(c) == c >= 128 /\ c <= 191
\* length of the well-formed sequence at position i of s within the first n bytes, 0 if there is none
WfLen(s, i, n) ==
    LET a == Chr(s, i)
        m == IF a < 128 THEN 1 ELSE IF a < 194 THEN 0 ELSE IF a < 224 THEN 2 ELSE IF a < 240 THEN 3 ELSE IF a < 245 THEN 4 ELSE 0
        b == Chr(s, i + 1)
    IN  IF m = 0 \/ i + m > n THEN 0
        ELSE IF \E k \in 1..(m - 1) : ~Cont(Chr(s, i + k)) THEN 0
        ELSE IF (a = 224 /\ b < 160) \/ (a = 237 /\ b > 159) \/ (a = 240 /\ b < 144) \/ (a = 244 /\ b > 143) THEN 0
        ELSE m
Value(s, i, m) ==
    LET a == Chr(s, i)  b == Chr(s, i + 1) % 64  c == Chr(s, i + 2) % 64  d == Chr(s, i + 3) % 64
    IN  CASE m = 1 -> a [] m = 2 -> (a % 32) * 64 + b [] m = 3 -> (a % 16) * 4096 + b * 64 + c
          [] OTHER -> (a % 8) * 262144 + b * 4096 + c * 64 + d
\* the scalar values of the longest well-formed prefix, and where it ends
RECURSIVE Scalars(_, _)
Scalars(s, i) == LET m == WfLen(s, i, Len(s)) IN IF i >= Len(s) \/ m = 0 THEN [v |-> <<>>, end |-> i]
                 ELSE LET r == Scalars(s, i + m) IN [v |-> <<Value(s, i, m)>> \o r.v, end |-> r.end]
RECURSIVE EncodeAll(_)
EncodeAll(rs) == IF rs = <<>> THEN <<>> ELSE Encode(Head(rs)) \o EncodeAll(Tail(rs))
==============================================================================
