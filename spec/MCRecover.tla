----------------------------- MODULE MCRecover -----------------------------
EXTENDS HickleRecover
I1 == Leaf("int", "1", "1", "i")
S1 == Leaf("str", "'a", "", "")
GS == Leaf("gone.Str", "'g", "", "")
A1 == Compound("arr", "numpy.ndarray", "<f8|2|x")
GA == Compound("arr", "gone.Arr", "<f8|2|y")
O1 == Compound("obj", "mod.Cls", "state")
GO == Compound("obj", "gone.Obj", "state")
CD == Compound("cust", "cust.Data", "x")
LIST == Compound("seq", "list", "")
TUP  == Compound("seq", "tuple", "")
SET  == Compound("set", "set", "")
DICT == Compound("map", "dict", "")
GLIST == Compound("seq", "gone.List", "")
GTUP  == Compound("seq", "gone.Tuple", "")
GSET  == Compound("set", "gone.Set", "")
GDICT == Compound("map", "gone.Dict", "")
CG    == Compound("cust", "cust.Group", "")
RLeaves == {I1, S1, GO, GA}
RConts == {LIST, DICT, GLIST, GDICT, CG}
RKeys == {GS}
SLeaves == {I1, GO, S1}
SConts == {SET, TUP, GTUP, GSET, LIST}
BLeaves == {I1, S1, GS, A1, GA, O1, GO, CD}
BConts == {LIST, TUP, SET, DICT, GLIST, GTUP, GSET, GDICT, CG}
None == {}
=============================================================================
