---------------------------- MODULE MC_DataSetC ----------------------------
EXTENDS MC_DataSet
ShapesDef == {<<>>, <<0>>, <<2>>, <<1, 0, 2>>}
=============================================================================
