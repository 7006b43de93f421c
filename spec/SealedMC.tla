------------------------------ MODULE SealedMC ------------------------------
EXTENDS SealedDesign
MCShapesA == { <<"F","F","S">>, <<"F","F">>, <<"S">>, <<>>, <<"F">>, <<"F","S">> }
MCShapeB == <<"F","S">>
MCShapeC == <<"F","S">>
MCShapesBig == MCShapesA \cup { <<"F","F","F">> }
MCShapesSim == MCShapesBig \cup { <<"F","F","F","F","F">>, <<"F","F","F","S">> }
=============================================================================
