------------------------------- MODULE Choices -------------------------------
EXTENDS Integers, Sequences

(* -------------------------------------------------- numbered choices -- *)
P == 46337
Mix(x, k) == LET y == (x * 31 + k * 1009 + 7) % P
                 z == (((y * y) % P) + k) % P
                 w == (((z * z) % P) + y * 17 + 3) % P
             IN (((w * w) % P) + z * 5 + k * 11) % P
Pick(x, k, S) == S[((Mix(x, k) \div 3) % Len(S)) + 1]
Chance(x, k, pct) == (Mix(x, k) \div 5) % 100 < pct
Upto(x, k, n) == (Mix(x, k) \div 7) % (n + 1)
=============================================================================
