---------------------------- MODULE PowTab ----------------------------
(* PW[p][L][k]: 20000 * (c/(L-1))^(p/10) for c = L+1-2k (k = 1, 2, ... pairs  *)
(* from the ends of a segment of L groups inwards); p is ten times the power. *)
EXTENDS TLC
PW ==
  0 :> << <<>>, <<>>, <<20000>>,
     <<20000,20000>>,
     <<20000,20000>>,
     <<20000,20000,20000>>,
     <<20000,20000,20000>>,
     <<20000,20000,20000,20000>>,
     <<20000,20000,20000,20000>>,
     <<20000,20000,20000,20000,20000>>,
     <<20000,20000,20000,20000,20000>>,
     <<20000,20000,20000,20000,20000,20000>>,
     <<20000,20000,20000,20000,20000,20000>>,
     <<20000,20000,20000,20000,20000,20000,20000>> >> @@
  4 :> << <<>>, <<>>, <<20000>>,
     <<20000,12888>>,
     <<20000,15157>>,
     <<20000,16304,10506>>,
     <<20000,17006,12888>>,
     <<20000,17482,14251,9183>>,
     <<20000,17826,15157,11487>>,
     <<20000,18087,15810,12888,8305>>,
     <<20000,18292,16304,13863,10506>>,
     <<20000,18457,16692,14590,11894,7664>>,
     <<20000,18593,17006,15157,12888,9767>>,
     <<20000,18707,17264,15613,13647,11125,7169>> >> @@
  10 :> << <<>>, <<>>, <<20000>>,
     <<20000,6667>>,
     <<20000,10000>>,
     <<20000,12000,4000>>,
     <<20000,13333,6667>>,
     <<20000,14286,8571,2857>>,
     <<20000,15000,10000,5000>>,
     <<20000,15556,11111,6667,2222>>,
     <<20000,16000,12000,8000,4000>>,
     <<20000,16364,12727,9091,5455,1818>>,
     <<20000,16667,13333,10000,6667,3333>>,
     <<20000,16923,13846,10769,7692,4615,1538>> >> @@
  30 :> << <<>>, <<>>, <<20000>>,
     <<20000,741>>,
     <<20000,2500>>,
     <<20000,4320,160>>,
     <<20000,5926,741>>,
     <<20000,7289,1574,58>>,
     <<20000,8438,2500,312>>,
     <<20000,9410,3429,741,27>>,
     <<20000,10240,4320,1280,160>>,
     <<20000,10954,5154,1878,406,15>>,
     <<20000,11574,5926,2500,741,93>>,
     <<20000,12117,6636,3122,1138,246,9>> >> @@
  60 :> << <<>>, <<>>, <<20000>>,
     <<20000,27>>,
     <<20000,312>>,
     <<20000,933,1>>,
     <<20000,1756,27>>,
     <<20000,2656,124,0>>,
     <<20000,3560,312,5>>,
     <<20000,4428,588,27,0>>,
     <<20000,5243,933,82,1>>,
     <<20000,6000,1328,176,8,0>>,
     <<20000,6698,1756,312,27,0>>,
     <<20000,7341,2202,487,65,3,0>> >> @@
  100 :> << <<>>, <<>>, <<20000>>,
     <<20000,0>>,
     <<20000,20>>,
     <<20000,121,0>>,
     <<20000,347,0>>,
     <<20000,691,4,0>>,
     <<20000,1126,20,0>>,
     <<20000,1620,56,0,0>>,
     <<20000,2147,121,2,0>>,
     <<20000,2689,218,8,0,0>>,
     <<20000,3230,347,20,0,0>>,
     <<20000,3763,506,41,1,0,0>> >>
=============================================================================
