------------------------------ MODULE GcmFile ------------------------------
(***************************************************************************)
(* The encrypted file: tag (16) || plaintext size (8, little-endian) ||    *)
(* ciphertext.                                                             *)
(***************************************************************************)
EXTENDS Gcm

FileHdr == 24
\* the file for message m, given the prepared message state (hash table, J0, aad)
FileBytes(c, k, ht, j0, aad, m) ==
  LET ct == GcmDataEnc(c, k, j0, 1, m)
  IN  GcmTagShown(c, k, ht, j0, aad, ct) \o LE(Len(m), 8) \o ct

\* what decryption may do with the bytes f:
\*   [kind |-> "ok", m]     must succeed and write m
\*   [kind |-> "no"]        must fail
\*   [kind |-> "any", m]    may do either (upper half of the size field: not authenticated)
FileOpen(c, k, ht, j0, aad, f) ==
  IF Len(f) < FileHdr THEN [kind |-> "no", m |-> <<>>]
  ELSE LET tag == SubSeq(f, 1, 16)
           sz  == SubSeq(f, 17, 24)
           ct  == Drop(f, 24)
       IN  IF SubSeq(sz, 1, 4) # LE(Len(ct), 4) THEN [kind |-> "no", m |-> <<>>]
           ELSE IF tag # GcmTagShown(c, k, ht, j0, aad, ct) THEN [kind |-> "no", m |-> <<>>]
           ELSE [kind |-> IF SubSeq(sz, 5, 8) = <<0, 0, 0, 0>> THEN "ok" ELSE "any",
                 m |-> GcmDataDec(c, k, j0, 1, ct)]

\* ---- big files, described as runs of equal bytes: <<byte, count>>, ...
RunsOf(s) ==
  FoldLeft(LAMBDA acc, b : IF acc # <<>> /\ Last(acc)[1] = b THEN [acc EXCEPT ![Len(acc)][2] = @ + 1]
                           ELSE Append(acc, <<b, 1>>), <<>>, s)
RunsThen(r, b, n) == IF r # <<>> /\ Last(r)[1] = b THEN [r EXCEPT ![Len(r)][2] = @ + n] ELSE Append(r, <<b, n>>)

RunsLen(r) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, r)

\* GHASH of nothing but zeros is zero: the tag when AAD (na bytes) and
\* ciphertext (n bytes) are all zero
ZeroTag(c, k, ht, j0, na, n) ==
  MaskUp(k, Xor16(Enc(c, j0), GMulT(ht, BitLen64(na) \o BitLen64(n))))
ZeroJ0(ht, n) == IF n = 12 THEN Zeros(12) \o <<0, 0, 0, 1>> ELSE GMulT(ht, Zeros(8) \o BitLen64(n))
\* the file whose message is its own keystream
ZeroFile(c, k, ht, j0, n) ==
  RunsThen(RunsOf(ZeroTag(c, k, ht, j0, 0, n) \o LE(n, 8)), 0, n)
=============================================================================
