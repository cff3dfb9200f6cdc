------------------------------ MODULE Devices ------------------------------
(* The coupling graphs of the named devices: number of vertices and edges.  *)
EXTENDS Integers, Sequences
Devices == [
  ibm_qx4 |-> [n |-> 5, ed |-> {<<0,1>>, <<0,2>>, <<1,2>>, <<2,3>>, <<2,4>>, <<3,4>>}],
  ibm_qx2 |-> [n |-> 5, ed |-> {<<0,1>>, <<0,2>>, <<1,2>>, <<2,3>>, <<2,4>>, <<3,4>>}],
  ibm_qx3 |-> [n |-> 16, ed |-> {<<0,1>>, <<0,5>>, <<1,2>>, <<1,4>>, <<2,3>>, <<3,4>>, <<4,5>>, <<5,6>>, <<6,7>>, <<6,15>>, <<7,8>>, <<7,14>>, <<8,9>>, <<8,13>>, <<9,10>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,15>>}],
  ibm_qx5 |-> [n |-> 16, ed |-> {<<0,1>>, <<0,15>>, <<1,2>>, <<1,14>>, <<2,3>>, <<2,13>>, <<3,4>>, <<3,12>>, <<4,5>>, <<4,11>>, <<5,6>>, <<5,10>>, <<6,7>>, <<6,9>>, <<7,8>>, <<8,9>>, <<9,10>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,15>>}],
  ibm_q20_tokyo |-> [n |-> 20, ed |-> {<<0,1>>, <<0,9>>, <<1,2>>, <<1,7>>, <<1,8>>, <<2,3>>, <<2,7>>, <<2,8>>, <<3,4>>, <<3,5>>, <<3,6>>, <<4,5>>, <<4,6>>, <<5,6>>, <<5,14>>, <<6,7>>, <<6,12>>, <<6,13>>, <<7,8>>, <<7,12>>, <<7,13>>, <<8,9>>, <<8,10>>, <<8,11>>, <<9,10>>, <<9,11>>, <<10,11>>, <<10,19>>, <<11,12>>, <<11,17>>, <<11,18>>, <<12,13>>, <<12,17>>, <<12,18>>, <<13,14>>, <<13,15>>, <<13,16>>, <<14,15>>, <<14,16>>, <<15,16>>, <<16,17>>, <<17,18>>, <<18,19>>}],
  rigetti_8q_agave |-> [n |-> 8, ed |-> {<<0,1>>, <<0,7>>, <<1,2>>, <<2,3>>, <<3,4>>, <<4,5>>, <<5,6>>, <<6,7>>}],
  rigetti_16q_aspen |-> [n |-> 16, ed |-> {<<0,1>>, <<0,7>>, <<0,15>>, <<1,2>>, <<2,3>>, <<3,4>>, <<4,5>>, <<5,6>>, <<6,7>>, <<7,8>>, <<8,9>>, <<8,15>>, <<9,10>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,15>>}],
  rigetti_19q_acorn |-> [n |-> 20, ed |-> {<<0,1>>, <<0,18>>, <<1,2>>, <<2,3>>, <<2,16>>, <<3,4>>, <<4,5>>, <<4,14>>, <<5,6>>, <<6,7>>, <<6,12>>, <<7,9>>, <<8,9>>, <<9,10>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,15>>, <<15,16>>, <<16,17>>, <<17,18>>, <<18,19>>}],
  recursive_architecture |-> [n |-> 9, ed |-> {<<0,2>>, <<1,2>>, <<2,7>>, <<3,5>>, <<4,5>>, <<5,7>>, <<6,7>>, <<7,8>>}],
  sycamore_like |-> [n |-> 20, ed |-> {<<0,2>>, <<1,2>>, <<2,3>>, <<2,6>>, <<3,5>>, <<4,5>>, <<4,14>>, <<5,6>>, <<5,12>>, <<6,7>>, <<6,11>>, <<7,8>>, <<7,10>>, <<8,9>>, <<9,10>>, <<10,11>>, <<10,17>>, <<11,12>>, <<11,18>>, <<12,14>>, <<12,16>>, <<13,14>>, <<14,15>>, <<15,16>>, <<16,18>>, <<17,18>>, <<18,19>>}],
  ibmq_poughkeepsie |-> [n |-> 20, ed |-> {<<0,1>>, <<0,5>>, <<1,2>>, <<1,7>>, <<2,3>>, <<3,4>>, <<4,5>>, <<5,6>>, <<5,14>>, <<6,7>>, <<7,8>>, <<8,9>>, <<9,10>>, <<10,11>>, <<10,19>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,15>>, <<15,16>>, <<16,17>>, <<17,18>>, <<18,19>>}],
  ibmq_boeblingen |-> [n |-> 20, ed |-> {<<0,1>>, <<1,2>>, <<1,11>>, <<2,4>>, <<3,4>>, <<4,5>>, <<5,6>>, <<5,10>>, <<6,7>>, <<7,8>>, <<8,9>>, <<8,18>>, <<9,10>>, <<9,14>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,16>>, <<15,16>>, <<16,17>>, <<17,18>>, <<18,19>>}],
  ibmq_singapore |-> [n |-> 20, ed |-> {<<0,1>>, <<1,2>>, <<1,11>>, <<2,4>>, <<3,4>>, <<4,5>>, <<5,6>>, <<5,10>>, <<6,7>>, <<7,8>>, <<8,9>>, <<8,18>>, <<9,10>>, <<9,14>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,14>>, <<14,16>>, <<15,16>>, <<16,17>>, <<17,18>>, <<18,19>>}],
  google_sycamore |-> [n |-> 53, ed |-> {<<0,1>>, <<0,10>>, <<1,2>>, <<1,4>>, <<1,9>>, <<2,3>>, <<3,4>>, <<4,5>>, <<4,8>>, <<5,7>>, <<6,7>>, <<6,18>>, <<7,8>>, <<7,17>>, <<8,9>>, <<8,16>>, <<9,10>>, <<9,15>>, <<10,11>>, <<10,14>>, <<11,13>>, <<12,13>>, <<12,29>>, <<13,14>>, <<13,28>>, <<14,15>>, <<14,27>>, <<15,16>>, <<15,26>>, <<16,17>>, <<16,25>>, <<17,18>>, <<17,24>>, <<18,19>>, <<18,21>>, <<19,20>>, <<20,21>>, <<21,22>>, <<21,24>>, <<22,23>>, <<23,24>>, <<24,25>>, <<25,26>>, <<25,38>>, <<26,27>>, <<26,37>>, <<27,28>>, <<27,36>>, <<28,29>>, <<28,35>>, <<29,30>>, <<29,34>>, <<30,33>>, <<31,33>>, <<32,33>>, <<32,43>>, <<33,34>>, <<33,38>>, <<34,35>>, <<34,43>>, <<35,36>>, <<35,42>>, <<36,37>>, <<36,41>>, <<37,38>>, <<37,40>>, <<38,39>>, <<39,40>>, <<39,47>>, <<40,41>>, <<40,48>>, <<41,42>>, <<41,46>>, <<42,43>>, <<42,45>>, <<43,44>>, <<44,45>>, <<45,46>>, <<45,50>>, <<46,48>>, <<46,51>>, <<47,48>>, <<48,49>>, <<49,51>>, <<50,51>>, <<51,52>>}],
  ibm_rochester |-> [n |-> 53, ed |-> {<<0,1>>, <<0,22>>, <<1,2>>, <<2,3>>, <<3,4>>, <<4,5>>, <<5,6>>, <<6,8>>, <<7,8>>, <<7,20>>, <<8,9>>, <<9,10>>, <<10,11>>, <<11,12>>, <<12,13>>, <<13,15>>, <<14,15>>, <<14,44>>, <<15,16>>, <<16,18>>, <<17,18>>, <<17,28>>, <<18,19>>, <<19,20>>, <<20,21>>, <<21,22>>, <<22,23>>, <<23,24>>, <<24,25>>, <<25,26>>, <<26,27>>, <<27,28>>, <<28,29>>, <<29,31>>, <<30,31>>, <<30,42>>, <<31,32>>, <<32,33>>, <<33,34>>, <<34,35>>, <<35,36>>, <<36,38>>, <<37,38>>, <<38,39>>, <<39,41>>, <<40,41>>, <<40,51>>, <<41,42>>, <<42,43>>, <<43,44>>, <<44,45>>, <<45,46>>, <<46,47>>, <<47,48>>, <<48,49>>, <<49,50>>, <<50,51>>, <<51,52>>}]
]
=============================================================================
