------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* wbcrypto as a state machine: one action per call of the public API.     *)
(*                                                                         *)
(* State                                                                   *)
(*   obj   the live objects: slot -> record with a type field t            *)
(*   fs    the files of the scratch directory, a sequence of               *)
(*         [p |-> path, k |-> "file" | "dir" | "dev" | "runs" | "big",     *)
(*          b |-> bytes; runs of equal bytes or a digest for a big file]   *)
(*   blob  what is known of data shown as a digest only: serialised        *)
(*         white-box keys -> cipher value or "cut", keystream files        *)
(*                                                                         *)
(* An event e records one call: its operation, arguments and everything    *)
(* the caller can observe of it.  Step(e) says whether the library may     *)
(* show e in the current state and what the next state is.  Nothing in     *)
(* here knows how the library computes a result.                           *)
(*                                                                         *)
(* Objects used outside their contract (a chunk after a partial block, a   *)
(* second finish, ...) go to phase "undef", where everything is allowed    *)
(* until they are initialised again.                                       *)
(***************************************************************************)
EXTENDS Ciphers, Cbc, Gcm, GcmFile, SM3, Fpe, FpeApp, Gf2, Enc

VARIABLES obj, fs, blob
vars == <<obj, fs, blob>>

Init == obj = <<>> /\ fs = <<>> /\ blob = <<>>

\* ------------------------------------------------------------------ helpers
Put(o, r) == obj' = (o :> r) @@ obj
Has(o, t) == o \in DOMAIN obj /\ obj[o].t = t
Same == UNCHANGED obj
FsSame == UNCHANGED <<fs, blob>>

\* no call writes outside the buffers it was given, nor into its input
Clean(e) == e.over = 0 /\ e.inmod = 0
Refused(e) == e.ret # 1

FileAt(f, p) == LET i == {j \in 1..Len(f) : f[j].p = p}
                IN  IF i = {} THEN [p |-> p, k |-> "absent", b |-> <<>>]
                    ELSE f[CHOOSE j \in i : TRUE]
SameFile(a, b) == a.p = b.p /\ a.k = b.k /\ a.b = b.b
\* every file except those of the set ps is the same in f and g
OthersSame(f, g, ps) ==
  \A q \in ({f[j].p : j \in 1..Len(f)} \cup {g[j].p : j \in 1..Len(g)}) \ ps :
     SameFile(FileAt(f, q), FileAt(g, q))

\* ------------------------------------------------------------ block ciphers
\* create a context, or key an existing one
Ciph(e) ==
  /\ e.op = "ciph"
  /\ e.ret = 1 /\ Clean(e)
  /\ Put(e.o, [t |-> "ciph", alg |-> e.alg, c |-> MkCipher(e.alg, e.key)])
  /\ FsSame

\* whole blocks, one call per block
Blk(e) ==
  /\ e.op = "blk" /\ Has(e.o, "ciph")
  /\ Clean(e) /\ e.ret = 1
  /\ e.out = Ecb(obj[e.o].c, e.dir, e.in)
  /\ Same /\ FsSame

\* a context whose contents are not known (a failed load, say): anything goes
BlkUndef(e) == e.op = "blk" /\ Has(e.o, "undef") /\ Clean(e) /\ Same /\ FsSame

\* ---------------------------------------------------------------------- CBC
CbcCall(e) ==
  /\ e.op = "cbc" /\ Has(e.o, "ciph")
  /\ Clean(e)
  /\ LET c == obj[e.o].c
         n == Len(e.in)
     IN  IF e.bfail > 0 THEN Refused(e)
         ELSE IF e.dir = "e" THEN
           IF e.cap < PadLen(n) THEN Refused(e)
           ELSE /\ e.ret = 1 /\ e.olen = PadLen(n)
                /\ First(e.out, PadLen(n)) = CbcEnc(c, e.iv, e.in)
         ELSE
           IF e.cap < n \/ n % 16 # 0 THEN Refused(e)
           ELSE LET inv == IF c.fam = "sm4d" THEN "E" ELSE "D"
                    m == CbcDecBlocks(c, inv, e.iv, e.in)
                IN  /\ e.ret = 1
                    /\ IF e.raw = 1          \* the generic mode function: no unpadding
                       THEN First(e.out, n) = m
                       ELSE /\ e.olen = n - StripCount(m)
                            /\ First(e.out, e.olen) = First(m, e.olen)
  /\ Same /\ FsSame

\* encrypt then decrypt with the library itself: the message comes back
\* (except for the known finding, see CbcRoundTrips)
CbcTrip(e) ==
  /\ e.op = "cbcrt" /\ Clean(e)
  /\ e.ret = 1
  /\ CbcRoundTrips(e.in) => e.out = e.in
  /\ Same /\ FsSame

\* ---------------------------------------------------------------------- GCM
\* kinds: "gcm" and "file" over a ciph object, "ee" over an external-encoding
\* table (an AES key), "mask" over one of the two tables of a masked key
GcmNew(e) ==
  /\ e.op = "gcm_init"
  /\ (Has(e.c, "ciph") \/ Has(e.c, "table"))
  /\ Clean(e)
  /\ IF e.bfail > 0 THEN Refused(e) /\ Same
     ELSE /\ e.ret = 1
          /\ LET x == obj[e.c]
             IN  Put(e.o, [t |-> "gcm", kind |-> e.kind, c |-> x.c,
                           k |-> IF x.t = "table" THEN x.k ELSE NoMask,
                           role |-> IF x.t = "table" THEN x.role ELSE {"e", "d"},
                           ht |-> HTable(x.c), ph |-> "new", j0 |-> Z16,
                           aad |-> <<>>, ct |-> <<>>])
  /\ FsSame

\* the table pair of the masked mode.  e.lin is the witness for the secret
\* linear map: images of the unit bytes, read off calibration ciphertexts.
\* The first table of the pair seals, the second opens; that is their role.
MaskKey(e) ==
  /\ e.op = "mask_key" /\ e.ret = 1 /\ Clean(e)
  /\ LET k == MkMask(e.lin)
         c == MkCipher("aes", e.key)
     IN  /\ MaskOK(k)
         /\ obj' = (e.o :> [t |-> "table", c |-> c, k |-> k, role |-> {"e"}])
                   @@ ((e.o2 :> [t |-> "table", c |-> c, k |-> k, role |-> {"d"}]) @@ obj)
  /\ FsSame
EeKey(e) ==
  /\ e.op = "ee_key" /\ e.ret = 1 /\ Clean(e)
  /\ Put(e.o, [t |-> "table", c |-> MkCipher("aes", e.key), k |-> NoMask, role |-> {"e", "d"}])
  /\ FsSame

GcmIv(e) ==
  /\ e.op = "gcm_iv" /\ Has(e.o, "gcm") /\ Clean(e)
  /\ LET g == obj[e.o]
     IN  IF e.bfail > 0
         THEN Refused(e) /\ Put(e.o, [g EXCEPT !.ph = "undef"])
         ELSE /\ e.ret = 1
              /\ Put(e.o, [g EXCEPT !.ph = "iv", !.j0 = J0(g.ht, e.iv), !.aad = <<>>, !.ct = <<>>])
  /\ FsSame

GcmAad(e) ==
  /\ e.op = "gcm_aad" /\ Has(e.o, "gcm") /\ Clean(e)
  /\ LET g == obj[e.o]
     IN  IF g.ph # "iv" \/ g.ct # <<>> THEN Put(e.o, [g EXCEPT !.ph = "undef"])
         ELSE e.ret = 1 /\ Put(e.o, [g EXCEPT !.ph = "aad", !.aad = e.aad])
  /\ FsSame

\* one chunk; dir "e" or "d"; par = 1 for the parallel entry points
GcmChunk(e) ==
  /\ e.op = "gcm_data" /\ Has(e.o, "gcm") /\ Clean(e)
  /\ LET g == obj[e.o]
         n == Len(e.in)
         first == (Len(g.ct) \div 16) + 1
     IN  CASE g.ph \in {"new", "undef"} -> Same
           [] e.bfail > 0 -> Refused(e) /\ Put(e.o, [g EXCEPT !.ph = "undef"])
           [] e.cap < n -> Refused(e) /\ e.out = Fill(e.cap, e.fill) /\ Same
           [] e.dir \notin g.role -> Put(e.o, [g EXCEPT !.ph = "undef"])
           [] n > 0 /\ Len(g.ct) % 16 # 0 -> Put(e.o, [g EXCEPT !.ph = "undef"])
           [] OTHER ->
                LET r == IF e.dir = "e" THEN GcmDataEnc(g.c, g.k, g.j0, first, e.in)
                         ELSE GcmDataDec(g.c, g.k, g.j0, first, e.in)
                IN  /\ e.ret = 1
                    /\ e.out = r \o (IF e.alias = 1 THEN <<>> ELSE Fill(e.cap - n, e.fill))
                    /\ Put(e.o, [g EXCEPT !.ct = @ \o (IF e.dir = "e" THEN r ELSE e.in),
                                          !.ph = "data"])
  /\ FsSame

GcmFin(e) ==
  /\ e.op = "gcm_fin" /\ Has(e.o, "gcm") /\ Clean(e)
  /\ LET g == obj[e.o]
     IN  /\ g.ph \in {"iv", "aad", "data"} =>
              /\ e.ret = 1
              /\ e.tag = First(GcmTagShown(g.c, g.k, g.ht, g.j0, g.aad, g.ct), e.n)
         /\ Put(e.o, [g EXCEPT !.ph = "undef"])
  /\ FsSame

\* a whole message that is its own keystream, of any size: the ciphertext is
\* all zero, so that the tag has a closed form.  The AAD is na zero bytes, the
\* IV is given or is niv zero bytes.
GcmZero(e) ==
  /\ e.op = "gcm_zero" /\ Has(e.o, "gcm") /\ Has(e.o2, "gcm") /\ Clean(e)
  /\ LET g == obj[e.o]
         j0 == IF e.niv >= 0 THEN ZeroJ0(g.ht, e.niv) ELSE J0(g.ht, e.iv)
         t == ZeroTag(g.c, g.k, g.ht, j0, e.na, e.n)
     IN  /\ obj[e.o2].c = g.c /\ obj[e.o2].k = g.k /\ "e" \in g.role /\ "d" \in obj[e.o2].role
         /\ e.ret = 1 /\ e.nz = 0 /\ e.t1 = t /\ e.t2 = t
         /\ obj' = (e.o :> [g EXCEPT !.ph = "undef"]) @@ ((e.o2 :> [obj[e.o2] EXCEPT !.ph = "undef"]) @@ obj)
  /\ FsSame

\* sealed with one object and opened with its partner: message and tag agree
GcmTrip(e) ==
  /\ e.op = "gcm_rt" /\ Clean(e) /\ e.out = e.in /\ e.t1 = e.t2
  /\ Same /\ FsSame

\* a context that held key material is overwritten before its memory goes back
Free(e) ==
  /\ e.op = "free" /\ e.o \in DOMAIN obj
  /\ obj[e.o].t \in {"ciph", "gcm", "undef"} => e.dirty = 0
  /\ obj' = [o \in (DOMAIN obj) \ {e.o} |-> obj[o]]
  /\ FsSame

\* -------------------------------------------------------------------- files
\* the environment does something to the scratch directory
Env(e) == e.op = "fs" /\ fs' = e.fs /\ UNCHANGED <<obj, blob>>

\* the harness writes the keystream of a prepared context into a (big) file
KsName(f) == ToString(f.b)
KsFile(e) ==
  /\ e.op = "fks" /\ Has(e.o, "gcm") /\ obj[e.o].ph = "iv" /\ "d" \in obj[e.o].role
  /\ e.ret = 1 /\ FileAt(e.fs, e.p).k \in {"big", "runs"}
  /\ LET g == obj[e.o]
     IN  /\ blob' = (KsName(FileAt(e.fs, e.p)) :> [t |-> "ks", c |-> g.c, j0 |-> g.j0, n |-> e.n]) @@ blob
         /\ Put(e.o, [g EXCEPT !.ph = "undef"])
  /\ OthersSame(fs, e.fs, {e.p}) /\ fs' = e.fs
IsKs(f, g, n) == /\ f.k \in {"big", "runs"} /\ KsName(f) \in DOMAIN blob
                 /\ blob[KsName(f)] = [t |-> "ks", c |-> g.c, j0 |-> g.j0, n |-> n]
KsLen(f) == IF f.k \in {"big", "runs"} /\ KsName(f) \in DOMAIN blob THEN blob[KsName(f)].n ELSE 0

Ready(g, dir) == g.ph \in {"iv", "aad"} /\ dir \in g.role

FileEnc(e) ==
  /\ e.op = "fenc" /\ Has(e.o, "gcm")
  /\ LET g == obj[e.o]
         src == FileAt(fs, e.inp)
         dst == FileAt(fs, e.outp)
         need == Len(src.b) + FileHdr
     IN  /\ CASE ~Ready(g, "e") -> TRUE
              [] e.bfail > 0 -> Refused(e)
              [] g.aad = <<>> /\ IsKs(src, g, KsLen(src)) ->
                   /\ e.ret = 1
                   /\ SameFile(FileAt(e.fs, e.outp), [p |-> e.outp, k |-> "runs", b |-> ZeroFile(g.c, g.k, g.ht, g.j0, KsLen(src))])
              [] src.k # "file" \/ dst.k = "dir" \/ e.obad = 1 -> Refused(e)
              [] e.lim >= 0 /\ e.lim < need -> Refused(e)
              \* onto itself: encrypted all the same, or left alone
              [] e.inp = e.outp /\ e.ret # 1 -> Refused(e) /\ SameFile(FileAt(e.fs, e.outp), dst)
              [] OTHER ->
                   /\ e.ret = 1
                   /\ SameFile(FileAt(e.fs, e.outp),
                        [p |-> e.outp, k |-> "file",
                         b |-> FileBytes(g.c, g.k, g.ht, g.j0, g.aad, src.b)])
         /\ Put(e.o, [g EXCEPT !.ph = "undef"])
  \* nothing else changes: no temporary file stays behind
  /\ OthersSame(fs, e.fs, {e.outp})
  /\ fs' = e.fs /\ UNCHANGED blob

FileDec(e) ==
  /\ e.op = "fdec" /\ Has(e.o, "gcm")
  /\ LET g == obj[e.o]
         src == FileAt(fs, e.inp)
         dst == FileAt(fs, e.outp)
         now == FileAt(e.fs, e.outp)
         \* a failed decryption releases no plaintext
         nothing == SameFile(now, dst) \/ now.k = "absent" \/ now.b = <<>>
         no == Refused(e) /\ nothing
     IN  /\ CASE ~Ready(g, "d") -> TRUE
              [] e.bfail > 0 -> no
              [] src.k = "runs" ->
                   \* a big file: the one whose message is the keystream, or not acceptable
                   \* (a cipher that maps zero to zero authenticates nothing)
                   g.ht[129] = Z16 \/ LET n == RunsLen(src.b) - FileHdr IN
                   IF g.aad = <<>> /\ n >= 0 /\ src.b = ZeroFile(g.c, g.k, g.ht, g.j0, n)
                   THEN e.ret = 1 /\ IsKs(now, g, n) ELSE no
              [] src.k # "file" \/ dst.k = "dir" \/ e.obad = 1 -> no
              [] OTHER ->
                   LET r == FileOpen(g.c, g.k, g.ht, g.j0, g.aad, src.b)
                       yes == e.ret = 1 /\ SameFile(now, [p |-> e.outp, k |-> "file", b |-> r.m])
                       \* onto itself: decrypted all the same, or left alone
                   IN  CASE e.inp = e.outp /\ e.ret # 1 -> no /\ SameFile(now, dst)
                         [] r.kind = "no" -> no
                         [] e.lim >= 0 /\ e.lim < Len(r.m) -> no
                         [] r.kind = "any" -> yes \/ no
                         [] OTHER -> yes
         /\ Put(e.o, [g EXCEPT !.ph = "undef"])
  /\ OthersSame(fs, e.fs, {e.outp})
  /\ fs' = e.fs /\ UNCHANGED blob

\* the process is killed in the middle of a file operation: the output and
\* its temporary companion may hold anything, other files are as before, and
\* the object is gone
Killed(e) ==
  /\ e.op = "killed"
  /\ OthersSame(fs, e.fs, {e.outp, e.tmpp})
  /\ fs' = e.fs
  /\ Same /\ UNCHANGED blob

\* ---------------------------------------------------------------------- SM3
Sm3Init(e) ==
  /\ e.op = "sm3_init" /\ e.ret = 1 /\ Clean(e)
  /\ Put(e.o, [t |-> "sm3", v |-> SM3IV, tail |-> <<>>, n |-> 0, ph |-> "open"])
  /\ FsSame
Sm3Upd(e) ==
  /\ e.op = "sm3_upd" /\ Has(e.o, "sm3") /\ Clean(e)
  /\ LET s == obj[e.o]
         m == s.tail \o e.in
         w == 64 * (Len(m) \div 64)
     IN  IF s.ph # "open" THEN Same
         ELSE /\ e.ret = 1
              /\ Put(e.o, [s EXCEPT !.v = SM3Absorb(s.v, SubSeq(m, 1, w)),
                                    !.tail = Drop(m, w), !.n = @ + Len(e.in)])
  /\ FsSame
Sm3Fin(e) ==
  /\ e.op = "sm3_fin" /\ Has(e.o, "sm3") /\ Clean(e)
  /\ LET s == obj[e.o]
     IN  IF s.ph # "open" THEN Same
         ELSE /\ e.ret = 1
              /\ e.out = SM3Digest(SM3Absorb(s.v, SM3Pad(s.tail, s.n)))
              /\ Put(e.o, [s EXCEPT !.ph = "closed"])
  /\ FsSame
\* a message of n bytes hashed as it is (d1), and with its padding and a tail
\* behind it (d2): d2 continues d1
Sm3Big(e) ==
  /\ e.op = "sm3_big" /\ e.ret = 1 /\ Clean(e)
  /\ e.pad = Drop(SM3Pad(Zeros(e.n % 64), e.n), e.n % 64)
  /\ e.d2 = SM3Digest(SM3Absorb(SM3Words(e.d1), SM3Pad(e.tail, e.n + Len(e.pad) + Len(e.tail))))
  /\ Same /\ FsSame
Sm3One(e) ==
  /\ e.op = "sm3" /\ e.ret = 1 /\ Clean(e)
  /\ e.out = SM3Hash(e.in)
  /\ Same /\ FsSame

\* ---------------------------------------------------------------------- FPE
FpeNew(e) ==
  /\ e.op = "fpe_init" /\ Has(e.c, "ciph") /\ Clean(e)
  /\ IF e.radix \in 2..36
     THEN /\ e.ret = 1
          /\ Put(e.o, [t |-> "fpe", c |-> obj[e.c].c, radix |-> e.radix, tw |-> e.tw, tag |-> <<>>])
     ELSE Refused(e) /\ Same
  /\ FsSame
\* the output buffer has Len(in) + 1 bytes, prefilled with e.fill
FpeCall(e) ==
  /\ e.op = "fpe" /\ Has(e.o, "fpe") /\ Clean(e)
  /\ LET f == obj[e.o]
     IN  IF ~FpeValid(e.in, f.radix, MinLen(e.kind))
         THEN Refused(e) /\ e.out = Fill(Len(e.in) + 1, e.fill) /\ Same
         ELSE IF e.bfail > 0 THEN Refused(e) /\ Put(e.o, [f EXCEPT !.tag = <<>>])
         ELSE LET r == FpeRun(e.kind, f.c, f.radix, f.tw, e.dir, e.in)
              IN  /\ e.ret = 1
                  /\ e.out = Append(r.out, 0)
                  /\ Put(e.o, [f EXCEPT !.tag = IF e.kind \in {"ff1c", "ff3g"} THEN r.tag ELSE @])
  /\ FsSame
FpeFin(e) ==
  /\ e.op = "fpe_fin" /\ Has(e.o, "fpe") /\ Clean(e)
  /\ obj[e.o].tag # <<>> => e.ret = 1 /\ e.n = 16 /\ e.tag = obj[e.o].tag
  /\ Same /\ FsSame

AppNew(e) ==
  /\ e.op = "app_init" /\ e.ret = 1 /\ Clean(e)
  /\ Put(e.o, [t |-> "app", c |-> MkCipher(AppAlg(e.cipher), e.key), ffx |-> e.ffx])
  /\ FsSame
\* the output buffer has Len(in) + 1 bytes, zero filled
AppCall(e) ==
  /\ e.op = "app" /\ Has(e.o, "app") /\ Clean(e)
  /\ LET r == App(e.what, obj[e.o].c, obj[e.o].ffx, e.dir, e.in, e.mask)
     IN  IF r.ok          \* (an empty sample is no sample)
         THEN e.ret = 1 /\ e.out = Append(r.out, 0)
         ELSE Refused(e)
  /\ Same /\ FsSame

\* the MySQL plug-in: a statement is prepared, evaluated on rows and ended
UdfInit(e) ==
  /\ e.op = "udf_init" /\ Clean(e)
  /\ IF e.nargs \notin {2, 3} \/ e.strs = 0 THEN e.ret # 0 /\ Same
     ELSE e.ret = 0 /\ Put(e.o, [t |-> "udf", v |-> e.v, nargs |-> e.nargs])
  /\ FsSame
UdfRow(e) ==
  /\ e.op = "udf" /\ Has(e.o, "udf") /\ Clean(e)
  /\ LET u == obj[e.o]
     IN  IF e.null = 1 THEN e.res = 0 /\ e.isnull = 1
         ELSE LET r == UdfRun(u.v, u.nargs, e.plain, e.mode, e.sample)
              IN  IF r.ok THEN e.res = 1 /\ e.isnull = 0 /\ e.err = 0 /\ e.out = r.out
                  ELSE e.res = 0 /\ e.err = 1
  /\ Same /\ FsSame
UdfEnd(e) ==
  /\ e.op = "udf_end" /\ Has(e.o, "udf")
  /\ obj' = [o \in (DOMAIN obj) \ {e.o} |-> obj[o]]
  /\ FsSame

\* ------------------------------------------------- white-box SM4 key storage
\* e.d is a digest of the stored bytes
KeyOut(e) ==
  /\ e.op \in {"k2f", "k2b"} /\ Has(e.o, "ciph") /\ Clean(e)
  /\ IF e.op = "k2f" /\ e.obad = 1
     \* what a failed store left behind is an incomplete key
     THEN Refused(e) /\ blob' = blob @@ (e.d :> [t |-> "cut"])
     ELSE e.ret = 1 /\ blob' = (e.d :> obj[e.o]) @@ blob
  /\ Same /\ UNCHANGED fs
\* storing what has no defined key: no claim but that it does no harm
KeyOutUndef(e) ==
  /\ e.op \in {"k2f", "k2b"} /\ Has(e.o, "undef") /\ Clean(e)
  /\ blob' = (e.d :> [t |-> "junk"]) @@ blob
  /\ Same /\ UNCHANGED fs
\* somebody cuts a stored key short
KeyCut(e) ==
  /\ e.op = "kcut"
  /\ blob' = (e.d :> [t |-> "cut"]) @@ blob
  /\ Same /\ UNCHANGED fs
\* somebody alters a stored key: into none at all (refuse), or into one that may
\* pass for another key
KeySet(e) ==
  /\ e.op = "kset"
  /\ blob' = (e.d :> [t |-> IF e.refuse = 1 THEN "cut" ELSE "junk"]) @@ blob
  /\ Same /\ UNCHANGED fs
KeyIn(e) ==
  /\ e.op \in {"f2k", "b2k"} /\ e.o \in DOMAIN obj /\ Clean(e)
  /\ IF e.obad = 1 THEN Refused(e) /\ Same
     ELSE IF e.d \notin DOMAIN blob THEN Put(e.o, [t |-> "undef"])
     ELSE IF blob[e.d].t = "cut" THEN Refused(e) /\ Same
     ELSE IF blob[e.d].t = "junk" THEN IF e.ret = 1 THEN Put(e.o, [t |-> "undef"]) ELSE Same
     ELSE e.ret = 1 /\ Put(e.o, blob[e.d])
  /\ FsSame
\* a fresh, unkeyed context
CtxNew(e) ==
  /\ e.op = "ctx_new" /\ e.ret = 1
  /\ Put(e.o, [t |-> "undef"])
  /\ FsSame

\* -------------------------------------------------------- key store, padding
KsPut(e) ==
  /\ e.op = "ks_put" /\ Clean(e)
  /\ IF e.obad = 1 \/ (e.lim >= 0 /\ e.lim < Len(e.in)) THEN Refused(e)
     ELSE e.ret = 1 /\ FileAt(e.fs, e.outp) = [p |-> e.outp, k |-> "file", b |-> e.in]
  /\ OthersSame(fs, e.fs, {e.outp})
  /\ fs' = e.fs /\ Same /\ UNCHANGED blob
KsGet(e) ==
  /\ e.op = "ks_get" /\ Clean(e)
  /\ LET f == FileAt(fs, e.inp)
     IN  IF f.k # "file" \/ Len(f.b) < e.n THEN Refused(e)
         ELSE e.ret = 1 /\ e.out = First(f.b, e.n)
  /\ Same /\ FsSame

PadCall(e) ==
  /\ e.op = "pad" /\ Clean(e)
  /\ LET r == CASE e.fn = "key7"   -> NormKey(e.in)
                [] e.fn = "key0"   -> ZeroKey(e.in)
                [] e.fn = "merge"  -> Pad(e.in)
                [] e.fn = "sep"    -> Strip(e.in)
                [] OTHER           -> <<>>
         n == CASE e.fn \in {"key7", "key0"} -> 16
                [] e.fn \in {"merge", "mlen"} -> PadLen(Len(e.in))
                [] OTHER -> Len(e.in) - StripCount(e.in)
     IN  /\ e.ret = n
         /\ e.fn \notin {"mlen", "slen"} => e.out = r
  /\ Same /\ FsSame

\* ------------------------------------------------- matrices over GF(2)
\* Registers hold a matrix (m), a vector (v) or both (an affine map x -> m x + v).
\* drawn: 0, or the number of the seed it was made at random from.  e.out is what the destination holds after the call.
MatVal(n, out) == [t |-> "mat", n |-> n, m |-> Rows(n, out), v |-> <<>>, drawn |-> 0]
VecVal(n, out) == [t |-> "vec", n |-> n, m |-> <<>>, v |-> out, drawn |-> 0]
AffVal(n, out) == [t |-> "aff", n |-> n, m |-> Rows(n, SubSeq(out, 1, n * Wb(n))), v |-> Drop(out, n * Wb(n)), drawn |-> 0]
Val(k, n, out) == CASE k = "mat" -> MatVal(n, out) [] k = "vec" -> VecVal(n, out) [] OTHER -> AffVal(n, out)
MatReg(n, m) == [t |-> "mat", n |-> n, m |-> m, v |-> <<>>, drawn |-> 0]
VecReg(n, v) == [t |-> "vec", n |-> n, m |-> <<>>, v |-> v, drawn |-> 0]
AffReg(n, m, v) == [t |-> "aff", n |-> n, m |-> m, v |-> v, drawn |-> 0]

MatSet(e) ==
  /\ e.op = "mset" /\ Put(e.o, Val(e.k, e.n, e.out)) /\ FsSame

\* the calls with a determined result
MatFun(f, n, a, b, e) ==
  CASE f = "init"  -> MatReg(n, ZeroMat(n))
    [] f = "id"    -> MatReg(n, Ident(n))
    [] f = "copy"  -> MatReg(n, a.m)
    [] f = "add"   -> MatReg(n, MatAdd(a.m, b.m))
    [] f = "mul"   -> MatReg(n, MatMul(n, a.m, b.m))
    [] f = "trans" -> MatReg(n, Transp(n, a.m))
    [] f = "flip"  -> MatReg(n, [obj[e.o].m EXCEPT ![e.i + 1] = FlipBit(n, @, e.j)])
    [] f = "set"   -> MatReg(n, [obj[e.o].m EXCEPT ![e.i + 1] = IF Bit(n, @, e.j) = e.bit THEN @ ELSE FlipBit(n, @, e.j)])
    [] f = "vinit" -> VecReg(n, Zeros(Wb(n)))
    [] f = "vadd"  -> VecReg(n, XorBytes(a.v, b.v))
    [] f \in {"mulv", "muln"} -> VecReg(n, MatVec(n, a.m, b.v))
    [] f = "aap"   -> VecReg(n, XorBytes(MatVec(n, a.m, b.v), a.v))
    [] f = "amix"  -> AffReg(n, MatMul(n, a.m, b.m), XorBytes(MatVec(n, a.m, b.v), a.v))
MatFuns == {"init", "id", "copy", "add", "mul", "trans", "flip", "set", "vinit", "vadd", "mulv", "muln", "aap", "amix"}
RegOf(o) == IF o = "" THEN [t |-> "none"] ELSE obj[o]
MatCall(e) ==
  /\ e.op = "mat" /\ e.f \in MatFuns /\ e.over = 0
  /\ LET r == MatFun(e.f, e.n, RegOf(e.a), RegOf(e.b), e)
     IN  /\ e.out = (IF r.t = "vec" THEN <<>> ELSE Flat(r.m)) \o r.v
         /\ Put(e.o, r)
  /\ FsSame
\* the inverse, of what has one
MatInv(e) ==
  /\ e.op = "mat" /\ e.f = "invs" /\ e.over = 0
  /\ LET a == obj[e.a]
         r == MatVal(e.n, e.out)
     IN  /\ Invertible(e.n, a.m) => (MatOK(e.n, r.m) /\ MatMul(e.n, a.m, r.m) = Ident(e.n))
         /\ Put(e.o, r)
  /\ FsSame
\* questions
MatAsk(e) ==
  /\ e.op = "mat" /\ e.f \in {"isinv", "iseq", "rbit", "viseq", "xor", "hw", "print"}
  /\ LET a == obj[e.a]
     IN  CASE e.f = "isinv" -> e.ret = (IF Invertible(e.n, a.m) THEN 1 ELSE 0)
           [] e.f = "iseq"  -> e.ret = (IF a.m = obj[e.b].m THEN 1 ELSE 0)
           [] e.f = "viseq" -> e.ret = (IF a.v = obj[e.b].v THEN 1 ELSE 0)
           [] e.f = "rbit"  -> e.ret = Bit(e.n, a.m[e.i + 1], e.j)
           [] e.f = "xor"   -> e.ret = ParityOf(a.v)
           [] e.f = "hw"    -> e.ret = Weight(a.v)
           [] OTHER         -> e.out = BitText(e.n, a.m)
  /\ Same /\ FsSame
\* block-diagonal composition of e.s
MatCom(e) ==
  /\ e.op = "mcom" /\ e.over = 0
  /\ LET k == Len(e.s)
         big == e.n * k
         x(i) == obj[e.s[i]]
         m == IF e.k = "vec" THEN <<>> ELSE Diag(e.n, [i \in 1..k |-> x(i).m])
         v == IF e.k = "mat" THEN <<>> ELSE Concat([i \in 1..k |-> x(i).v])
     IN  /\ e.out = (IF m = <<>> THEN <<>> ELSE Flat(m)) \o v
         /\ Put(e.o, [t |-> e.k, n |-> big, m |-> m, v |-> v, drawn |-> 0])
  /\ FsSame

\* random values.  What is drawn is determined by the seed, the time and the
\* draws since the seed was set, and no two draws (of enough bits) agree.
Rng == IF "rng" \in DOMAIN obj THEN obj["rng"] ELSE [t |-> "rng", s |-> <<>>, h |-> <<>>, ep |-> 0]
MatSeed(e) == e.op = "rseed" /\ Put("rng", [t |-> "rng", s |-> <<e.s, e.t>>, h |-> <<>>, ep |-> Rng.ep + 1]) /\ FsSame
DrawKey(r, w) == ToString(<<"draw", r.s, Append(r.h, w)>>)
NewDraw(n, x) == (x.drawn > 0 /\ x.t # "vec" /\ n >= 8) =>
                   \A o \in DOMAIN obj : (obj[o].t = x.t /\ obj[o].n = n /\ obj[o].drawn = x.drawn) => obj[o].m # x.m
NewVec(n, x) == (x.drawn > 0 /\ n >= 64) => \A o \in DOMAIN obj : (obj[o].t = x.t /\ obj[o].n = n /\ obj[o].drawn = x.drawn) => obj[o].v # x.v
\* which bits have been seen one and zero, in all the draws of a kind since the case began
SeenKey(w) == ToString(<<"seen", w>>)
SeenOf(w, k) == IF SeenKey(w) \in DOMAIN obj THEN obj[SeenKey(w)] ELSE [t |-> "seen", one |-> Zeros(k), zero |-> Zeros(k), at |-> {}]
SeeBits(w, out) == LET s == SeenOf(w, Len(out))
                   IN  SeenKey(w) :> [s EXCEPT !.one = [i \in 1..Len(out) |-> @[i] | out[i]], !.zero = [i \in 1..Len(out) |-> @[i] | (255 - out[i])]]
SeePlaces(w, out) == SeenKey(w) :> [SeenOf(w, 0) EXCEPT !.at = @ \cup {<<i, out[i]>> : i \in 1..Len(out)}]
MatDraw(e) ==
  /\ e.op = "draw" /\ e.over = 0
  /\ LET n == e.n
         x == [Val(IF e.f = "vrand" THEN "vec" ELSE IF e.f = "agen" THEN "aff" ELSE "mat", n, e.out) EXCEPT !.drawn = Rng.ep]
         y == [Val(IF e.f = "agen" THEN "aff" ELSE "mat", n, e.out2) EXCEPT !.drawn = Rng.ep]
         k == DrawKey(Rng, <<e.f, n>>)
         out == <<e.out, e.out2>>
     IN  /\ x.t # "vec" => MatOK(n, x.m) /\ NewDraw(n, x)
         /\ x.t # "mat" => RowOK(n, x.v) /\ NewVec(n, x)
         /\ e.f \in {"gen", "agen"} =>
              /\ MatOK(n, y.m)
              /\ MatMul(n, x.m, y.m) = Ident(n)
         \* y undoes x:  y.m (x.m z + x.v) + y.v = z
         /\ e.f = "agen" => RowOK(n, y.v) /\ MatVec(n, y.m, x.v) = y.v
         /\ (Rng.s # <<>> /\ k \in DOMAIN blob) => blob[k] = out
         /\ blob' = IF Rng.s # <<>> THEN (k :> out) @@ blob ELSE blob
         /\ obj' = ("rng" :> [Rng EXCEPT !.h = Append(@, <<e.f, n>>)]) @@ SeeBits(<<e.f, n>>, e.out) @@
                   (IF e.o2 = "" THEN (e.o :> x) @@ obj ELSE (e.o :> x) @@ ((e.o2 :> y) @@ obj))
  /\ UNCHANGED fs
\* a random permutation of 0..15 or 0..255 and its inverse
PermDraw(e) ==
  /\ e.op = "perm" /\ e.over = 0
  /\ Len(e.out) = e.n /\ IsPerm(e.out) /\ InverseOf(e.out, e.out2)
  /\ LET k == DrawKey(Rng, <<"perm", e.n>>)
         on == Rng.s # <<>> /\ Rng.h # <<>>
     IN  /\ (on /\ k \in DOMAIN blob) => blob[k] = e.out
         /\ blob' = IF on THEN (k :> e.out) @@ blob ELSE blob
         /\ obj' = (IF on THEN "rng" :> [Rng EXCEPT !.h = Append(@, <<"perm", e.n>>)] ELSE <<>>)
                   @@ (IF e.n = 16 THEN SeePlaces(<<"perm", e.n>>, e.out) ELSE <<>>) @@ obj
  /\ UNCHANGED fs
\* a list shuffled in place
Shuffle(e) == e.op = "shuffle" /\ e.over = 0 /\ e.ret = 0 /\ SameBag(e.in, e.out) /\ FsSame
  /\ IF Len(e.in) <= 16 /\ IsPerm(e.in) THEN obj' = SeePlaces(<<"shuffle", Len(e.in)>>, e.out) @@ obj ELSE Same
\* the first shuffle of a process that starts at e.t: the time decides it, and (for enough elements) no two times the same way
FreshShuffle(e) ==
  /\ e.op = "fshuf" /\ e.ret = 0 /\ SameBag(e.in, e.out)
  /\ LET k(t) == ToString(<<"fshuf", t, e.in>>)
         ts == IF "fshuf" \in DOMAIN obj THEN obj["fshuf"].ts ELSE {}
     IN  /\ k(e.t) \in DOMAIN blob => blob[k(e.t)] = e.out
         /\ Cardinality(Range(e.in)) >= 16 => \A t \in ts \ {e.t} : k(t) \in DOMAIN blob => blob[k(t)] # e.out
         /\ blob' = (k(e.t) :> e.out) @@ blob
         /\ obj' = ("fshuf" :> [t |-> "fshuf", n |-> 0, drawn |-> 0, ts |-> ts \cup {e.t}]) @@ obj
  /\ UNCHANGED fs
\* the generator of random numbers: the seed decides the sequence, no number comes twice in it, two seeds give two sequences
NumDraw(e) ==
  /\ e.op = "rdraw" /\ Cardinality(Range(e.ys)) = Len(e.ys)
  /\ LET k(s) == ToString(<<"rdraw", s, Len(e.ys)>>)
         ts == IF "rdraw" \in DOMAIN obj THEN obj["rdraw"].ts ELSE {}
         out == Flat(e.ys)
     IN  /\ k(e.s) \in DOMAIN blob => blob[k(e.s)] = out
         /\ Len(e.ys) >= 8 => \A s \in ts \ {e.s} : k(s) \in DOMAIN blob => blob[k(s)] # out
         /\ blob' = (k(e.s) :> out) @@ blob
         /\ obj' = ("rdraw" :> [t |-> "rdraw", n |-> 0, drawn |-> 0, ts |-> ts \cup {e.s}]) @@ obj
  /\ UNCHANGED fs
\* after (enough) draws: every bit has come up both ways, every element in every place
Mixed(e) ==
  /\ e.op = "mixed"
  /\ LET s == obj[SeenKey(<<e.f, e.n>>)]
     IN  IF e.f \in {"perm", "shuffle"} THEN s.at = {<<i, x>> : i \in 1..e.n, x \in 0..(e.n - 1)}
         ELSE LET all == IF e.n = 4 THEN 15 ELSE 255
              IN  \A i \in 1..Len(s.one) : (s.one[i] & all) = all /\ (s.zero[i] & all) = all
  /\ Same /\ FsSame
\* the permutation of the 32-bit numbers, on a list of them
QprCall(e) == e.op = "qpr" /\ (\A i \in 1..Len(e.xs) : e.ys[i] = Qpr32(e.xs[i])) /\ Same /\ FsSame
\* and, on a range of them, how many values it takes
QprRange(e) == e.op = "qprall" /\ e.dups = 0 /\ Same /\ FsSame

\* ------------------------------------------- what white-box tables give away
\* A table is looked at from the outside.  Its parts (e.kinds: their names and
\* digests) are all different, and different from those of every table for the
\* same key made at another time.
IsTable(o) == o \in DOMAIN obj /\ obj[o].t \in {"ciph", "table"}
TabSum(e) ==
  /\ e.op = "tsum" /\ IsTable(e.o)
  /\ \A i \in 1..Len(e.kinds) : Cardinality(Range(e.kinds[i].h)) = Len(e.kinds[i].h)
  /\ LET id == ToString(<<"tsum", e.alg, obj[e.o].c.rk[1], obj[e.o].c.fam>>)
         old == IF id \in DOMAIN obj THEN obj[id].sums ELSE <<>>
     IN  /\ \A k \in 1..Len(old) : old[k].tm # e.tm =>
              \A i \in 1..Len(e.kinds) : \A j \in 1..Len(e.kinds[i].h) : e.kinds[i].h[j] # old[k].kinds[i].h[j]
         /\ Put(id, [t |-> "sums", n |-> 0, drawn |-> 0, sums |-> Append(old, [tm |-> e.tm, kinds |-> e.kinds, dummy |-> e.dummy])])
  /\ FsSame
\* where the dummy rounds of the tables made so far are: not always in the same places
DummyVary(e) ==
  /\ e.op = "tdummy" /\ IsTable(e.o)
  /\ LET s == obj[ToString(<<"tsum", e.alg, obj[e.o].c.rk[1], obj[e.o].c.fam>>)].sums
     IN  /\ \A i \in 1..Len(s) : Len(s[i].dummy) = e.n
         /\ Cardinality({s[i].dummy : i \in 1..Len(s)}) > 1
  /\ Same /\ FsSame
\* the encoded XORs of a round: none of the encodings is affine, nearly all are different
\* (up to affine maps), also from those of the rounds seen before
TabNib(e) ==
  /\ e.op = "tnib" /\ IsTable(e.o)
  /\ LET T(c, s, k) == e.x[c][s][k]
         id == ToString(<<"laws", e.o>>)
         old == IF id \in DOMAIN obj THEN obj[id] ELSE [t |-> "laws", n |-> 0, drawn |-> 0, laws |-> {}, count |-> 0]
         ix == (1..4) \X (1..8)
         laws == TLCEval(UNION {{<<p, s, 1, LawIn1(T(p[1], s, p[2]), 4)>>, <<p, s, 2, LawIn2(T(p[1], s, p[2]), 4)>>} : p \in ix, s \in {1, 2}}
                         \cup {<<p, s, 3, LawOut(T(p[1], s, p[2]), 4)>> : p \in ix, s \in {1, 2, 3}})
         now == TLCEval({<<l[4][2], l[4][3], l[4][4]>> : l \in laws} \cup old.laws)
         n == old.count + Cardinality(laws)
     IN  /\ \A c \in 1..4, s \in 1..3, k \in 1..8 : Latin(T(c, s, k))
         /\ \A l \in laws : ~IsXorLaw(l[4])
         /\ Cardinality(now) >= n - 3 - (n \div 1000)
         /\ Put(id, [old EXCEPT !.laws = now, !.count = n])
  /\ FsSame
\* the key-dependent boxes of a column of a round, with the XORs that follow them
\* (a predicate of its own: TLC keeps the values of definitions only where it evaluates an expression)
BoxShapes(e) ==
     LET dec(j, k) == LET T == e.iv[((j - 1) \div 2) + 1][k] IN Coords(IF j % 2 = 1 THEN LawIn1(T, 16) ELSE LawIn2(T, 16))
         dj(j) == Seqn([k \in 1..7 |-> dec(j, k)])
         f(j) == LET d == TLCEval(dj(j))
                 IN  Seqn([x \in 1..256 |-> LET w == e.two[j][x]
                       IN  FoldLeft(LAMBDA a, k : 16 * a + d[k][HalfOf(w, k) + 1], 0, <<1, 2, 3, 4, 5, 6, 7>>)])
     IN  [j \in 1..4 |-> Shape(TLCEval(f(j)))]
BoxCols(e) == Seqn([j \in 1..4 |-> HalfSig(e.two[j])])
BoxHides(e, sh) ==
         \* mixing of the four bytes of the column
         /\ \E j \in 1..4, b \in 1..4 : ~IsBij([x \in 1..256 |-> e.two[j][x][b]])
         /\ \A j \in 1..4, b \in 1..4 : \E x \in 1..256 : e.three[j][x][b] # e.three[j][1][b]
         \* mixing of the bits of each byte in front of the S-box
         /\ \A j \in 1..4 : sh[j] # PlainAes
\* nearly no two mixings of a byte alike, no two mixings of a column alike, in all the rounds
TabBox(e) ==
  /\ e.op = "tbox" /\ IsTable(e.o)
  /\ LET id == ToString(<<"boxes", e.o>>)
         old == IF id \in DOMAIN obj THEN obj[id] ELSE [t |-> "boxes", n |-> 0, drawn |-> 0, shapes |-> {}, cols |-> {}]
         sh == TLCEval(BoxShapes(e))
         new == [old EXCEPT !.n = @ + 4, !.shapes = @ \cup Range(sh), !.cols = @ \cup {BoxCols(e)}]
     IN  /\ BoxHides(e, sh) = TRUE
         /\ Cardinality(new.shapes) >= new.n - 3
         /\ 4 * Cardinality(new.cols) = new.n
         /\ Put(id, new)
  /\ FsSame
\* the boxes of the last round with what decodes them
LastHides(e) ==
  LET sh == TLCEval([j \in 1..16 |-> Shape(e.f[j])])
  IN  (\A j \in 1..16 : IsBij(e.f[j]) /\ sh[j] # PlainAes) /\ Cardinality(Range(sh)) >= 14
TabLast(e) == e.op = "tlast" /\ IsTable(e.o) /\ LastHides(e) = TRUE /\ Same /\ FsSame
\* external encodings: bijections, not affine; those that have it mix both halves of the byte
TabExt(e) ==
  /\ e.op = "text" /\ IsTable(e.o)
  /\ \A i \in 1..Len(e.mix) : IsBij(e.mix[i]) /\ ~AffineMap(e.mix[i]) /\ ~Separable(e.mix[i])
  \* no two bytes mixed alike, going in and coming out
  /\ Cardinality({Fibre(e.mix[i]) : i \in 1..16}) = 16
  /\ Cardinality({Fibre(BInv(e.mix[i])) : i \in 17..Len(e.mix)}) = Len(e.mix) - 16
  /\ \A i \in 1..Len(e.any) : IsBij(e.any[i]) /\ ~AffineMap(e.any[i])
  /\ \A i \in 1..Len(e.lin) : e.lin[i] # <<128, 64, 32, 16, 8, 4, 2, 1>>
  /\ Same /\ FsSame
\* the encoded XORs of whole bytes: first and second row and column; both inputs hidden, all differently
GxHides(e) ==
     LET in1(x) == LET ci == TLCEval(BInv(x.c)) ri == TLCEval(BInv(x.r)) IN Seqn([y \in 1..256 |-> ci[x.r1[ri[x.c[y] + 1] + 1] + 1]])
         in2(x) == LET ci == TLCEval(BInv(x.c)) ri == TLCEval(BInv(x.r)) IN Seqn([y \in 1..256 |-> ri[x.c1[ci[x.r[y] + 1] + 1] + 1]])
         laws == TLCEval([i \in 1..Len(e.x) |-> in1(e.x[i])] \o [i \in 1..Len(e.x) |-> in2(e.x[i])])
         plain == [y \in 1..256 |-> ((y - 1) ^^ 1)]
     IN  /\ \A i \in 1..Len(e.x) : IsBij(e.x[i].c) /\ IsBij(e.x[i].r) /\ IsBij(e.x[i].c1) /\ IsBij(e.x[i].r1)
         /\ \A i \in 1..Len(laws) : laws[i] # plain
         /\ Cardinality(Range(laws)) = Len(laws)
TabGx(e) == e.op = "tgx" /\ IsTable(e.o) /\ GxHides(e) = TRUE /\ Same /\ FsSame
\* the cipher as the tables of the two GCM variants compute it: masked by a constant, or encoded byte by byte
TabAux(e) ==
  /\ e.op = "taux" /\ IsTable(e.o)
  /\ LET ks == Ecb(obj[e.o].c, "e", e.in)
         n == Len(e.in) \div 16
         d == XorBytes(ks, e.out)
         id == ToString(<<"taux", e.alg, obj[e.o].role, obj[e.o].c.rk[1]>>)
         old == IF id \in DOMAIN obj THEN obj[id].ds ELSE <<>>
     IN  /\ IF e.alg = "mask" THEN /\ \A j \in 1..n : Block(d, j) = Block(d, 1)
                                   /\ Cardinality({b \in 1..16 : d[b] # 0}) >= 8
            ELSE Cardinality({Block(e.in, j) : j \in 1..n}) >= 8 => \A b \in 1..16 : Cardinality({d[16 * (j - 1) + b] : j \in 1..n}) > 1
         /\ \A k \in 1..Len(old) : old[k].tm # e.tm => old[k].d # d
         /\ Put(id, [t |-> "auxs", n |-> 0, drawn |-> 0, ds |-> Append(old, [tm |-> e.tm, d |-> d])])
  /\ FsSame
\* no two adjacent words of the key schedule (if of five byte values or more) are in the memory the library keeps, nor in what it exports
TabFind(e) == e.op = "tfind" /\ IsTable(e.o) /\ e.rk = Concat(obj[e.o].c.rk) /\ e.hits = 0 /\ Same /\ FsSame
\* a real round of a white-box SM4: e.r from 0; P: the linear parts of the encodings of the words, from the external encodings on
TabEnd(e) ==
  /\ e.op = "tend" /\ IsTable(e.o)
  /\ \A i \in 1..4 : ~ByteDiagonal(e.se[i]) /\ ~ByteDiagonal(e.fe[i])
  /\ Cardinality(Range(e.se)) = 4 /\ Cardinality(Range(e.fe)) = 4
  /\ Put(ToString(<<"P", e.o>>), [t |-> "P", n |-> 0, drawn |-> 0, ps |-> e.se, es |-> {}, e4 |-> {}, qs |-> {}, d |-> <<>>])
  /\ FsSame
RoundHides(e, P, E) ==
         /\ Len(P) = e.r + 4
         /\ \A k \in 1..3 : ~ByteDiagonal(e.m[k])
         /\ ~ByteDiagonal(e.c) /\ ~ByteDiagonal(e.d)
         \* the input of the S-boxes is encoded, the output is not just that of the linear layer
         /\ ByteDiagonal(E) /\ ~LinId(E)
         /\ \A j \in 1..4 : \E b \in 1..8 : e.d[8 * (j - 1) + b] \notin SL4[j]
         /\ Len(e.tab) > 0 => \A j \in 1..4 :
               /\ \A b \in 0..255 : ~PlainSm4(e.tab[j], b)
               /\ \E x \in 1..256 : Xor4(e.tab[j][x], e.tab[j][1]) \notin SL4[j]
\* E: the linear part of the encodings in front of the S-boxes; Q: of the encoding behind those of the round before.
\* None comes twice
TabRound(e) ==
  /\ e.op = "trnd" /\ IsTable(e.o)
  /\ LET id == ToString(<<"P", e.o>>)
         s == obj[id]
         E == TLCEval(LinAfter(e.m[1], s.ps[e.r + 2]))
         Q == TLCEval(IF e.r = 0 THEN <<>> ELSE UndoBytes(E, LinAfter(e.m[3], s.d)))
         p == TLCEval(LinAfter(e.c, s.ps[e.r + 1]))
         \* (the self-equivalences of the S-box are few: of those, single bytes may come again)
         blocks == {<<j, [k \in 1..8 |-> E[8 * (j - 1) + k][j]]>> : j \in 1..4}
     IN  /\ RoundHides(e, s.ps, E) = TRUE
         /\ e.tab # <<>> => blocks \cap s.es = {}
         /\ E \notin s.e4
         /\ \A j \in 1..4 : 2 * Cardinality({b \in s.es \cup blocks : b[1] = j}) > e.r
         /\ Q \notin s.qs
         /\ p \notin Range(s.ps)
         /\ Put(id, [s EXCEPT !.ps = Append(@, p), !.es = @ \cup blocks, !.e4 = @ \cup {E}, !.qs = @ \cup {Q}, !.d = e.d])
  /\ FsSame

\* what the calls since the last mark have kept, when none of them made or
\* loaded an object: nothing
HeldNow(e) == e.op = "kept" /\ e.blocks <= 0 /\ e.fds = 0 /\ UNCHANGED vars

\* the script wanted to use an object that the library did not deliver: fine
\* exactly when the specification has no such object either
NoObj(e) == e.op = "noobj" /\ e.o \notin DOMAIN obj /\ UNCHANGED vars

\* ---------------------------------------------------------------------------
Step(e) ==
  \/ Ciph(e) \/ Blk(e) \/ BlkUndef(e) \/ CbcCall(e) \/ CbcTrip(e)
  \/ GcmNew(e) \/ MaskKey(e) \/ EeKey(e) \/ GcmIv(e) \/ GcmAad(e) \/ GcmChunk(e) \/ GcmFin(e) \/ GcmZero(e) \/ GcmTrip(e)
  \/ Free(e) \/ Env(e) \/ KsFile(e) \/ FileEnc(e) \/ FileDec(e) \/ Killed(e)
  \/ Sm3Init(e) \/ Sm3Upd(e) \/ Sm3Fin(e) \/ Sm3One(e) \/ Sm3Big(e)
  \/ FpeNew(e) \/ FpeCall(e) \/ FpeFin(e) \/ AppNew(e) \/ AppCall(e) \/ UdfInit(e) \/ UdfRow(e) \/ UdfEnd(e)
  \/ KeyOut(e) \/ KeyOutUndef(e) \/ KeyCut(e) \/ KeySet(e) \/ KeyIn(e) \/ CtxNew(e) \/ KsPut(e) \/ KsGet(e) \/ PadCall(e) \/ HeldNow(e)
  \/ MatSet(e) \/ MatCall(e) \/ MatInv(e) \/ MatAsk(e) \/ MatCom(e) \/ MatSeed(e) \/ MatDraw(e) \/ PermDraw(e) \/ Shuffle(e) \/ FreshShuffle(e) \/ NumDraw(e) \/ Mixed(e) \/ QprCall(e) \/ QprRange(e)
  \/ TabSum(e) \/ DummyVary(e) \/ TabNib(e) \/ TabBox(e) \/ TabLast(e) \/ TabExt(e) \/ TabGx(e) \/ TabAux(e) \/ TabFind(e) \/ TabEnd(e) \/ TabRound(e)
  \/ NoObj(e)
=============================================================================
