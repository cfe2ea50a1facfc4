-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* The real numbers the implementation computes with: IEEE-754 binary64.   *)
(*                                                                         *)
(* TLC's integers have 32 bits, so a real is represented by the pair       *)
(* <<hi, lo>> of the two 32-bit halves of its bit pattern.  Every operator *)
(* below stands for the IEEE operation named in its comment; TLC evaluates *)
(* them with the Java methods of the same names in Real.java (TLC's module *)
(* override mechanism).  The TLA+ bodies are only the domain statements.   *)
(* Traces recorded from the implementation carry reals in the same form,   *)
(* so no decimal conversion takes part in any comparison.                  *)
(***************************************************************************)
LOCAL INSTANCE Integers

Int32 == (-2147483647 - 1)..2147483647
F64 == Int32 \X Int32

RLit(str)  == CHOOSE r \in F64 : TRUE   \* the double nearest to a decimal literal
RInt(k)    == CHOOSE r \in F64 : TRUE   \* the integer k
RAdd(a, b) == CHOOSE r \in F64 : TRUE   \* a + b
RSub(a, b) == CHOOSE r \in F64 : TRUE   \* a - b
RMul(a, b) == CHOOSE r \in F64 : TRUE   \* a * b
RDiv(a, b) == CHOOSE r \in F64 : TRUE   \* a / b
RNeg(a)    == CHOOSE r \in F64 : TRUE   \* -a
RAbs(a)    == CHOOSE r \in F64 : TRUE   \* |a|
RSqrt(a)   == CHOOSE r \in F64 : TRUE   \* square root
RMax(a, b) == CHOOSE r \in F64 : TRUE   \* the larger
RMin(a, b) == CHOOSE r \in F64 : TRUE   \* the smaller
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE   \* a < b  (FALSE with NaN)
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE   \* a <= b (FALSE with NaN)
REq(a, b)  == CHOOSE r \in BOOLEAN : TRUE   \* a = b as numbers (-0 = 0; NaN # NaN)
RFinite(a) == CHOOSE r \in BOOLEAN : TRUE   \* neither infinite nor NaN
RFloor(a)  == CHOOSE k \in Int32 : TRUE     \* floor, saturated to 32 bits; NaN is the minimum
RCeil(a)   == CHOOSE k \in Int32 : TRUE     \* ceiling, likewise
RStr(a)    == CHOOSE str \in STRING : TRUE  \* decimal rendering, for messages
RRound(a, k) == CHOOSE r \in F64 : TRUE     \* a printed with k significant digits (C++ stream default format) and read back
RSum(f)    == CHOOSE r \in F64 : TRUE       \* sum of the reals f[e] over the domain of f
RMaxOf(f)  == CHOOSE r \in F64 : TRUE       \* largest of 0 and the f[e]

(* The solution of the linear system A x = b; A[i] is a function from columns to reals. *)
RSolve(A, b) == CHOOSE x \in [DOMAIN b -> F64] : \A i \in DOMAIN b : RSum([j \in DOMAIN A[i] |-> RMul(A[i][j], x[j])]) = b[i]

(* Vectors are tuples of reals. *)
VAdd(v, w)   == [a \in DOMAIN v |-> RAdd(v[a], w[a])]
VSub(v, w)   == [a \in DOMAIN v |-> RSub(v[a], w[a])]
VScale(c, v) == [a \in DOMAIN v |-> RMul(c, v[a])]
VDot(v, w)   == RSum([a \in DOMAIN v |-> RMul(v[a], w[a])])
VNorm(v)     == RSqrt(VDot(v, v))
VSum(z, f)   == [a \in DOMAIN z |-> RAdd(z[a], RSum([e \in DOMAIN f |-> f[e][a]]))]  \* z + sum of the vectors f[e]

(* |a - b| <= tol * scale, or both the same bits; FALSE when a number is NaN. *)
RClose(a, b, tol, scale) ==
    \/ a = b
    \/ RLe(RAbs(RSub(a, b)), RMul(tol, scale))
VClose(v, w, tol, scale) == \A a \in DOMAIN v : RClose(v[a], w[a], tol, scale)

R0 == RInt(0)
R1 == RInt(1)
=============================================================================
