[
    "Intersects_SS",
    "Contains_SS",
    "Intersects_SB",
    "Contains_SB",
    "Intersects_SO",
    "Contains_SO",
    "Intersects_SF",
    "Contains_SF",
    "Contains_SP",
    "Intersects_ST",
    "Contains_ST",
    "Ray_S",
    "Plane_S",
    "ContainedBy_S",
    "Matrix_S",
    "Decomp_S",
    "Intersects_BS",
    "Contains_BS",
    "Intersects_BB",
    "Contains_BB",
    "Intersects_BO",
    "Contains_BO",
    "Intersects_BF",
    "Contains_BF",
    "Contains_BP",
    "Intersects_BT",
    "Contains_BT",
    "Ray_B",
    "Plane_B",
    "ContainedBy_B",
    "Matrix_B",
    "Decomp_B",
    "Intersects_OS",
    "Contains_OS",
    "Intersects_OB",
    "Contains_OB",
    "Intersects_OO",
    "Contains_OO",
    "Intersects_OF",
    "Contains_OF",
    "Contains_OP",
    "Intersects_OT",
    "Contains_OT",
    "Ray_O",
    "Plane_O",
    "ContainedBy_O",
    "Matrix_O",
    "Decomp_O",
    "Intersects_FS",
    "Contains_FS",
    "Intersects_FB",
    "Contains_FB",
    "Intersects_FO",
    "Contains_FO",
    "Intersects_FF",
    "Contains_FF",
    "Contains_FP",
    "Intersects_FT",
    "Contains_FT",
    "Ray_F",
    "Plane_F",
    "ContainedBy_F",
    "Matrix_F",
    "Decomp_F",
    "Merged_S",
    "Merged_B",
    "SphereFromBox",
    "SphereFromOBox",
    "SphereFromFrustum",
    "SphereFromPoints",
    "BoxFromSphere",
    "BoxFromPoints",
    "OBoxFromBox",
    "OBoxFromPoints",
    "Corners_B",
    "Corners_O",
    "Corners_F",
    "Planes_F",
    "FromMatrix_F",
]
