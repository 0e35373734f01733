# generates spec/SceneOps.tla and harness/src/bin/scene_ops.inc (same order)
ops=[]
def add(n,a,o): ops.append((n,a,o))
for x in "SBOF":
    for y in "SBOF":
        add(f"Intersects_{x}{y}",x+y,"q"); add(f"Contains_{x}{y}",x+y,"q")
    add(f"Contains_{x}P",x+"P","q")
    add(f"Intersects_{x}T",x+"T","q"); add(f"Contains_{x}T",x+"T","q")
    add(f"Ray_{x}",x+"PV","r"); add(f"Plane_{x}",x+"V","q"); add(f"ContainedBy_{x}",x+"L","q")
    add(f"Matrix_{x}",x+"M",x); add(f"Decomp_{x}",x+"D",x)
add("Merged_S","SS","S"); add("Merged_B","BB","B")
add("SphereFromBox","B","S"); add("SphereFromOBox","O","S"); add("SphereFromFrustum","F","S"); add("SphereFromPoints","N","S")
add("BoxFromSphere","S","B"); add("BoxFromPoints","N","B"); add("OBoxFromBox","B","O"); add("OBoxFromPoints","N","O")
add("Corners_B","B","C"); add("Corners_O","O","C"); add("Corners_F","F","C"); add("Planes_F","FK","L"); add("FromMatrix_F","J","F")
with open('/verif/spec/SceneOps.tla','w') as f:
    f.write("------------------------------ MODULE SceneOps ------------------------------\n(* generated by tools/gen_scene.py: the instructions of Scene: call, operands, result *)\nOpTable == <<\n")
    f.write(",\n".join('  <<"%s", <<%s>>, "%s">>'%(n,", ".join('"%s"'%c for c in a),o) for n,a,o in ops))
    f.write("\n>>\nNOps == %d\n"%len(ops)+"="*77+"\n")
with open('/verif/harness/src/bin/scene_ops.inc','w') as f:
    f.write("[\n"+"".join('    "%s",\n'%n for n,_,_ in ops)+"]\n")
print(len(ops))
