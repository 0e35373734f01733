------------------------------ MODULE SceneOps ------------------------------
(* generated by tools/gen_scene.py: the instructions of Scene: call, operands, result *)
OpTable == <<
  <<"Intersects_SS", <<"S", "S">>, "q">>,
  <<"Contains_SS", <<"S", "S">>, "q">>,
  <<"Intersects_SB", <<"S", "B">>, "q">>,
  <<"Contains_SB", <<"S", "B">>, "q">>,
  <<"Intersects_SO", <<"S", "O">>, "q">>,
  <<"Contains_SO", <<"S", "O">>, "q">>,
  <<"Intersects_SF", <<"S", "F">>, "q">>,
  <<"Contains_SF", <<"S", "F">>, "q">>,
  <<"Contains_SP", <<"S", "P">>, "q">>,
  <<"Intersects_ST", <<"S", "T">>, "q">>,
  <<"Contains_ST", <<"S", "T">>, "q">>,
  <<"Ray_S", <<"S", "P", "V">>, "r">>,
  <<"Plane_S", <<"S", "V">>, "q">>,
  <<"ContainedBy_S", <<"S", "L">>, "q">>,
  <<"Matrix_S", <<"S", "M">>, "S">>,
  <<"Decomp_S", <<"S", "D">>, "S">>,
  <<"Intersects_BS", <<"B", "S">>, "q">>,
  <<"Contains_BS", <<"B", "S">>, "q">>,
  <<"Intersects_BB", <<"B", "B">>, "q">>,
  <<"Contains_BB", <<"B", "B">>, "q">>,
  <<"Intersects_BO", <<"B", "O">>, "q">>,
  <<"Contains_BO", <<"B", "O">>, "q">>,
  <<"Intersects_BF", <<"B", "F">>, "q">>,
  <<"Contains_BF", <<"B", "F">>, "q">>,
  <<"Contains_BP", <<"B", "P">>, "q">>,
  <<"Intersects_BT", <<"B", "T">>, "q">>,
  <<"Contains_BT", <<"B", "T">>, "q">>,
  <<"Ray_B", <<"B", "P", "V">>, "r">>,
  <<"Plane_B", <<"B", "V">>, "q">>,
  <<"ContainedBy_B", <<"B", "L">>, "q">>,
  <<"Matrix_B", <<"B", "M">>, "B">>,
  <<"Decomp_B", <<"B", "D">>, "B">>,
  <<"Intersects_OS", <<"O", "S">>, "q">>,
  <<"Contains_OS", <<"O", "S">>, "q">>,
  <<"Intersects_OB", <<"O", "B">>, "q">>,
  <<"Contains_OB", <<"O", "B">>, "q">>,
  <<"Intersects_OO", <<"O", "O">>, "q">>,
  <<"Contains_OO", <<"O", "O">>, "q">>,
  <<"Intersects_OF", <<"O", "F">>, "q">>,
  <<"Contains_OF", <<"O", "F">>, "q">>,
  <<"Contains_OP", <<"O", "P">>, "q">>,
  <<"Intersects_OT", <<"O", "T">>, "q">>,
  <<"Contains_OT", <<"O", "T">>, "q">>,
  <<"Ray_O", <<"O", "P", "V">>, "r">>,
  <<"Plane_O", <<"O", "V">>, "q">>,
  <<"ContainedBy_O", <<"O", "L">>, "q">>,
  <<"Matrix_O", <<"O", "M">>, "O">>,
  <<"Decomp_O", <<"O", "D">>, "O">>,
  <<"Intersects_FS", <<"F", "S">>, "q">>,
  <<"Contains_FS", <<"F", "S">>, "q">>,
  <<"Intersects_FB", <<"F", "B">>, "q">>,
  <<"Contains_FB", <<"F", "B">>, "q">>,
  <<"Intersects_FO", <<"F", "O">>, "q">>,
  <<"Contains_FO", <<"F", "O">>, "q">>,
  <<"Intersects_FF", <<"F", "F">>, "q">>,
  <<"Contains_FF", <<"F", "F">>, "q">>,
  <<"Contains_FP", <<"F", "P">>, "q">>,
  <<"Intersects_FT", <<"F", "T">>, "q">>,
  <<"Contains_FT", <<"F", "T">>, "q">>,
  <<"Ray_F", <<"F", "P", "V">>, "r">>,
  <<"Plane_F", <<"F", "V">>, "q">>,
  <<"ContainedBy_F", <<"F", "L">>, "q">>,
  <<"Matrix_F", <<"F", "M">>, "F">>,
  <<"Decomp_F", <<"F", "D">>, "F">>,
  <<"Merged_S", <<"S", "S">>, "S">>,
  <<"Merged_B", <<"B", "B">>, "B">>,
  <<"SphereFromBox", <<"B">>, "S">>,
  <<"SphereFromOBox", <<"O">>, "S">>,
  <<"SphereFromFrustum", <<"F">>, "S">>,
  <<"SphereFromPoints", <<"N">>, "S">>,
  <<"BoxFromSphere", <<"S">>, "B">>,
  <<"BoxFromPoints", <<"N">>, "B">>,
  <<"OBoxFromBox", <<"B">>, "O">>,
  <<"OBoxFromPoints", <<"N">>, "O">>,
  <<"Corners_B", <<"B">>, "C">>,
  <<"Corners_O", <<"O">>, "C">>,
  <<"Corners_F", <<"F">>, "C">>,
  <<"Planes_F", <<"F", "K">>, "L">>,
  <<"FromMatrix_F", <<"J">>, "F">>
>>
NOps == 79
=============================================================================
