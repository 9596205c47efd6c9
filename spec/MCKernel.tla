------------------------------ MODULE MCKernel ------------------------------
EXTENDS CakeKernel
MCTiles == {<<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 4>>}
=============================================================================
