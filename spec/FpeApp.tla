------------------------------- MODULE FpeApp -------------------------------
(***************************************************************************)
(* The application layer: phone numbers, ID card numbers and Chinese text, *)
(* with a mask ("sample") whose '*' cells are encrypted and whose other    *)
(* cells are kept and bound into the tweak; and the MySQL functions.       *)
(***************************************************************************)
EXTENDS Fpe

Star == 42
AppKind(ffx) == IF ffx = "ff1" THEN "ff1" ELSE "ff3"
AppAlg(name) == CASE name \in {"sm4", "wbsm4", "aes", "wbaes"} -> name
                  [] OTHER -> "aes"

Fail == [ok |-> FALSE, out |-> <<>>]

\* the positions to encrypt, in order
Cells(mask, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : mask = <<>> \/ mask[i] = Star)
Kept(mask, n)  == SelectSeq([i \in 1..n |-> i], LAMBDA i : mask # <<>> /\ mask[i] # Star)
Pick(s, idx) == Seqn([i \in 1..Len(idx) |-> s[idx[i]]])
\* position of i in idx, 0 if absent
PosIn(i, idx) == LET p == {j \in 1..Len(idx) : idx[j] = i}
                 IN  IF p = {} THEN 0 ELSE CHOOSE j \in p : TRUE

\* digits with a mask; a mask shorter than the number is refused
AppDigits(c, ffx, dir, s, mask) ==
  LET n == Len(s)
      cells == Cells(mask, n)
      x == Pick(s, cells)
      kind == AppKind(ffx)
  IN  IF mask # <<>> /\ Len(mask) < n THEN Fail
      ELSE IF ~FpeValid(x, 10, MinLen(kind)) THEN Fail
      ELSE LET tw == Pick(s, Kept(mask, n)) \o <<0>>
               y == FpeRun(kind, c, 10, tw, dir, x).out
           IN  [ok |-> TRUE,
                out |-> Seqn([i \in 1..n |-> LET p == PosIn(i, cells)
                                             IN  IF p = 0 THEN s[i] ELSE y[p]])]

AppPhone(c, ffx, dir, s, mask) == AppDigits(c, ffx, dir, s, mask)
\* a trailing check character X is kept and does not take part
AppIdcard(c, ffx, dir, s, mask) ==
  IF s # <<>> /\ Last(s) = 88
  THEN LET r == AppDigits(c, ffx, dir, SubSeq(s, 1, Len(s) - 1),
                          mask)
       IN  IF r.ok THEN [r EXCEPT !.out = @ \o <<88>>] ELSE r
  ELSE AppDigits(c, ffx, dir, s, mask)

\* ---- Chinese text: three-byte UTF-8 characters U+4E00 .. U+9EFF
\* one character as its offset from U+4E00, or -1
CnChar(b1, b2, b3) ==
  IF b1 \div 16 # 14 \/ b2 \div 64 # 2 \/ b3 \div 64 # 2 THEN -1
  ELSE LET n == (b1 % 16) * 4096 + (b2 % 64) * 64 + (b3 % 64) - 19968
       IN  IF n \in 0..20735 THEN n ELSE -1
CnBytes(n) == LET u == n + 19968
              IN  << 224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64) >>
CnText(s) == Seqn([i \in 1..(Len(s) \div 3) |-> CnChar(s[3 * i - 2], s[3 * i - 1], s[3 * i])])
\* four base-12 digits, least significant first
CnDigits(n) == << n % 12, (n \div 12) % 12, (n \div 144) % 12, n \div 1728 >>
CnAll(ns) == FoldLeft(LAMBDA acc, n : acc \o CnDigits(n), <<>>, ns)

\* a mask as a sequence of cells: TRUE = encrypt; "bad" when it does not parse
RECURSIVE CnMask(_)
CnMask(m) == IF m = <<>> THEN <<>>
             ELSE IF m[1] = Star THEN <<"e">> \o CnMask(Tail(m))
             ELSE IF Len(m) < 3 THEN <<"bad">>
             ELSE <<"k">> \o CnMask(Drop(m, 3))

AppCn(c, ffx, dir, s, mask) ==
  LET ns == CnText(s)
      n == Len(ns)
      cm == CnMask(mask)
      kind == AppKind(ffx)
  IN  IF \/ Len(s) % 3 # 0
         \/ \E i \in 1..n : ns[i] = -1
         \/ mask # <<>> /\ (Len(cm) # n \/ \E i \in 1..Len(cm) : cm[i] = "bad")
      THEN Fail
      ELSE LET cells == SelectSeq([i \in 1..n |-> i], LAMBDA i : mask = <<>> \/ cm[i] = "e")
               kept  == SelectSeq([i \in 1..n |-> i], LAMBDA i : mask # <<>> /\ cm[i] = "k")
               x == Chars(CnAll(Pick(ns, cells)))
               tw == Chars(CnAll(Pick(ns, kept))) \o <<0>>
           IN  IF ~FpeValid(x, 12, MinLen(kind)) THEN Fail
               ELSE LET y == Digits(FpeRun(kind, c, 12, tw, dir, x).out)
                        val(p) == y[4*p-3] + 12 * y[4*p-2] + 144 * y[4*p-1] + 1728 * y[4*p]
                    IN  [ok |-> TRUE,
                         out |-> Concat([i \in 1..n |->
                                   LET p == PosIn(i, cells)
                                   IN  IF p = 0 THEN SubSeq(s, 3*i-2, 3*i) ELSE CnBytes(val(p))])]

App(what, c, ffx, dir, s, mask) ==
  CASE what = "phone"  -> AppPhone(c, ffx, dir, s, mask)
    [] what = "idcard" -> AppIdcard(c, ffx, dir, s, mask)
    [] OTHER           -> AppCn(c, ffx, dir, s, mask)

\* ---- the MySQL function fpe(plain, mode [, sample])
UdfKey == <<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>
UdfCipher == MkCipher("sm4", UdfKey)
\* plain and sample are byte strings, mode a string; nargs 2 or 3; v is the
\* server generation of the plug-in, 5 or 8.  Both want the sample of a phone
\* or ID card number to be as long as the number; v8 wants it of names too.
UdfSameLen(v, mode) == IF v = 5 THEN mode \in {"phone", "idcard"} ELSE mode # "address"
UdfRun(v, nargs, plain, mode, sample) ==
  LET mask == IF nargs = 3 THEN sample ELSE <<>>
  IN  IF \/ \E i \in 1..Len(plain) : plain[i] = 0
         \/ nargs = 3 /\ UdfSameLen(v, mode) /\ Len(sample) # Len(plain) THEN Fail
      ELSE CASE mode = "phone"  -> IF Len(plain) # 11 THEN Fail ELSE AppPhone(UdfCipher, "ff1", "e", plain, mask)
             [] mode = "idcard" -> IF Len(plain) # 18 THEN Fail ELSE AppIdcard(UdfCipher, "ff1", "e", plain, mask)
             [] mode \in {"name", "address"} -> AppCn(UdfCipher, "ff1", "e", plain, mask)
             [] OTHER -> Fail
=============================================================================
