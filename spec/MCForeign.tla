----------------------------- MODULE MCForeign -----------------------------
EXTENDS HickleForeign
I1 == Leaf("int", "1", "1", "i")
F2 == Leaf("float", "0x1.8p+0", "3/2", "f")
S1 == Leaf("str", "'a", "", "")
SS == Leaf("str", "'/", "", "")
SD == Leaf("str", "'data0", "", "")
B1 == Leaf("bytes", "ba", "", "")
NN == NoneLeaf
NI == Leaf("numpy.int64", "7", "7", "i")
A1 == Compound("arr", "numpy.ndarray", "<f8|2|x")
O1 == Compound("obj", "mod.Cls", "state")
LIST == Compound("seq", "list", "")
TUP  == Compound("seq", "tuple", "")
SET  == Compound("set", "set", "")
DICT == Compound("map", "dict", "")
FLeaves == {I1, S1, A1, O1}
FConts == {LIST, DICT, TUP}
FKeys == {SS, NI}
DLeaves == {I1, S1, A1}
DConts == {LIST, DICT, SET}
BLeaves == {I1, F2, S1, NN, A1, O1}
BConts == {LIST, TUP, DICT, SET}
BKeys == {SS, SD, B1, NI}
None == {}
=============================================================================
