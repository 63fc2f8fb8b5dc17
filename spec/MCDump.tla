------------------------------- MODULE MCDump -------------------------------
EXTENDS HickleDump
L(t, v, n, q) == Leaf(t, v, n, q)
I1 == L("int", "1", "1", "i")
F2 == L("float", "0x1.8p+0", "3/2", "f")
S1 == L("str", "'a", "", "")
SD == L("str", "'data0", "", "")
SS == L("str", "'/", "", "")
B1 == L("bytes", "ba", "", "")
NN == NoneLeaf
NI == L("numpy.int64", "7", "7", "i")
ET == EmptyTuple
A1 == Compound("arr", "numpy.ndarray", "<f8|2|x")
O1 == Compound("obj", "mod.Cls", "state")
LIST == Compound("seq", "list", "")
TUP  == Compound("seq", "tuple", "")
SET  == Compound("set", "set", "")
DICT == Compound("map", "dict", "")

MixLeaves == {I1, F2, S1, NN, A1, O1}
MixLeavesBig == {I1, F2, S1, A1}
ShareLeaves1 == {A1, S1}
MixConts  == {LIST, TUP, DICT}
NoKeys    == {}
KeyLeavesAll == {I1, S1, SS, SD, B1, NI, NN}
KeyVals   == {S1, A1}
DictOnly  == {DICT, LIST}
SetConts  == {SET, TUP, LIST}
SimConts == {LIST, TUP, DICT, SET}
SimKeys  == {SS, SD, B1, NI}
SetLeaves == {I1, F2, S1, NN}
ShareLeaves == {A1, S1, I1}
ShareConts  == {LIST, DICT}
=============================================================================
