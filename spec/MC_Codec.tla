------------------------------ MODULE MC_Codec ------------------------------
EXTENDS Codec
ASSUME PrintT(<<LayoutSize("X16Y16Z16"), BitField(<<1,2,3,255>>, 20, 10), Decode("X8","SNorm",<<127>>,1)>>)
ASSUME QEq(Decode("X8","SNorm",<<127>>,1).q, QOne)
ASSUME QEq(Decode("X8","SNorm",<<128>>,1).q, QInt(-1))
ASSUME QEq(Decode("X16","Float",<<0,60>>,1).q, QOne)
ASSUME EncodeOk("X16","Float",<<0,60>>,1, QOne, QZero)
ASSUME ~EncodeOk("X16","Float",<<2,60>>,1, QOne, QZero)
ASSUME EncodeOk("X64","UInt",<<255,255,255,255,255,255,255,255>>,1, QPow2(70), QZero)
ASSUME ~EncodeOk("X64","UInt",<<254,255,255,255,255,255,255,255>>,1, QPow2(70), QZero)
=============================================================================
