----------------------------- MODULE MCLegacy -----------------------------
EXTENDS HickleLegacy
I1 == Leaf("int", "1", "1", "i")
I2 == Leaf("int", "2", "2", "i")
F2 == Leaf("float", "0x1.8p+0", "3/2", "f")
BO == Leaf("bool", "True", "1", "b")
CO == Leaf("complex", "1j", "0|1", "c")
S1 == Leaf("str", "'a", "", "")
S2 == Leaf("str", "'bb", "", "")
SS == Leaf("str", "'/", "", "")
SQ == Leaf("str", "'q", "", "")
B1 == Leaf("bytes", "ba", "", "")
NN == NoneLeaf
NI == Leaf("numpy.int64", "7", "7", "i")
ET == EmptyTuple
TK == Leaf("tuplekey", "(1,)", "", "")
A1 == Compound("arr", "numpy.ndarray", "<f8|2|x")
M1 == Compound("arr", "numpy.ma.MaskedArray", "<f8|2|x#m")
O1 == Compound("obj", "mod.Cls", "state")
LIST == Compound("seq", "list", "")
TUP  == Compound("seq", "tuple", "")
SET  == Compound("set", "set", "")
DICT == Compound("map", "dict", "")
Both == {"3", "4"}
Leaves1 == {I1, S1, M1, NN}
Conts1 == {LIST, DICT, SET}
Keys1 == {SS, TK}
Leaves2 == {F2, S1, S2, B1, ET, A1}
Conts2 == {TUP, DICT, LIST}
Keys2 == {BO, SQ}
BLeaves == {I1, I2, F2, BO, CO, S1, S2, B1, NN, ET, NI, A1, M1, O1}
BConts == {LIST, TUP, SET, DICT}
BKeys == {SS, SQ, TK}
NoKeys == {}
=============================================================================
