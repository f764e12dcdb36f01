-------------------------------- MODULE Kat --------------------------------
(***************************************************************************)
(* The specification against the published vectors: FIPS-197, GM/T 0002,   *)
(* GM/T 0004, the GCM submission, SP 800-38G FF1 samples and the FF3       *)
(* samples.                                                                *)
(***************************************************************************)
EXTENDS System

HexVal(ch) == CHOOSE i \in 0..15 : SubSeq("0123456789abcdef", i + 1, i + 1) = ch
H(s) == Seqn([i \in 1..(Len(s) \div 2) |->
          16 * HexVal(SubSeq(s, 2 * i - 1, 2 * i - 1)) + HexVal(SubSeq(s, 2 * i, 2 * i))])
Digs(s) == Seqn([i \in 1..Len(s) |-> 48 + HexVal(SubSeq(s, i, i))])

VARIABLE n
KInit == Init /\ n = 0
KNext == n < 14 /\ n' = n + 1 /\ UNCHANGED vars

K16 == "2b7e151628aed2a6abf7158809cf4f3c"
GK == "feffe9928665731c6d6a8f9467308308"
GP == "d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"
GA == "feedfacedeadbeeffeedfacedeadbeefabaddad2"
Vec(i) ==
  CASE i = 0 -> Enc(MkCipher("aes", H("000102030405060708090a0b0c0d0e0f")), H("00112233445566778899aabbccddeeff"))
                  = H("69c4e0d86a7b0430d8cdb78070b4c55a")
    [] i = 1 -> Dec(MkCipher("aes", H(K16)), H("3925841d02dc09fbdc118597196a0b32")) = H("3243f6a8885a308d313198a2e0370734")
    [] i = 2 -> Enc(MkCipher("sm4", H("0123456789abcdeffedcba9876543210")), H("0123456789abcdeffedcba9876543210"))
                  = H("681edf34d206965e86b3e94f536e4246")
    [] i = 3 -> Dec(MkCipher("sm4", H("0123456789abcdeffedcba9876543210")), H("681edf34d206965e86b3e94f536e4246"))
                  = H("0123456789abcdeffedcba9876543210")
    [] i = 4 -> SM3Hash(H("616263")) = H("66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0")
    [] i = 5 -> GcmSeal(MkCipher("aes", H("00000000000000000000000000000000")), NoMask, Zeros(12), <<>>, <<>>).tag
                  = H("58e2fccefa7e3061367f1d57a4e7455a")
    [] i = 6 -> GcmSeal(MkCipher("aes", H(GK)), NoMask, H("cafebabefacedbaddecaf888"), H(GA), H(GP))
                  = [ct |-> H("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091"),
                     tag |-> H("5bc94fbc3221a5db94fae95ae7121a47")]
    [] i = 7 -> GcmSeal(MkCipher("aes", H(GK)), NoMask, H("cafebabefacedbad"), H(GA), H(GP)).tag
                  = H("3612d2e79e3b0785561be14aaca2fccb")
    [] i = 8 -> FpeRun("ff1", MkCipher("aes", H(K16)), 10, <<>>, "e", Digs("0123456789")).out = Digs("2433477484")
    [] i = 9 -> FpeRun("ff1", MkCipher("aes", H(K16)), 10, Digs("9876543210"), "e", Digs("0123456789")).out = Digs("6124200773")
    [] i = 10 -> FpeRun("ff1", MkCipher("aes", H(K16)), 10, Digs("9876543210"), "d", Digs("6124200773")).out = Digs("0123456789")
    \* FF3 sample 1 of the original draft
    [] i = 11 -> FpeRun("ff3", MkCipher("aes", RevBytes(H("ef4359d8d580aa4f7f036d6f04fc6a94"))), 10, H("d8e7920afa330a73"),
                        "e", Digs("890121234567890000")).out = Digs("750918814058654607")
    [] i = 12 -> FpeRun("ff3", MkCipher("aes", RevBytes(H("ef4359d8d580aa4f7f036d6f04fc6a94"))), 10, H("d8e7920afa330a73"),
                        "d", Digs("750918814058654607")).out = Digs("890121234567890000")
    [] OTHER -> SM3Hash(Concat([j \in 1..16 |-> H("61626364")]))
                  = H("debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732")
Vectors == n < 14 => Vec(n) 
=============================================================================
