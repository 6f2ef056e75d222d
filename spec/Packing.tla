------------------------------- MODULE Packing -------------------------------
(***************************************************************************)
(* Composite identifiers: upper half * base + lower half.  Base 256 for    *)
(* two ID8 in an ID16, 65536 for two ID16 in an ID32, a TagSetID or a      *)
(* VariantID.  32-bit numbers are written <<upper 16 bits, lower 16 bits>>,*)
(* so there combining is pairing.                                          *)
(***************************************************************************)
EXTENDS Naturals
CONSTANT Base
Halves == 0..(Base - 1)
Combine(hi, lo) == hi * Base + lo
Upper(x) == x \div Base
Lower(x) == x % Base
ASSUME Base > 1
=============================================================================
