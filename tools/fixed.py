import json,subprocess
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
M=[("PointPattern.unique()","A03"),("point membership","A04"),("coord_names list","A04"),("lambda_window","A01"),
("knn never returns","A02"),("std_distance","B03"),("whole number of points","D03"),("one-point patterns","D01"),
("single simulated realization","E03"),("HexagonM.num","E02"),("far edges of the grid","E02"),("shares of all distances","F01"),
("full distance matrix ignores","F04"),("truncation warning","F03"),("j_test returns","F05"),("cuts the simulations along","F05"),
("true nearest point","F05"),("empty-space points from the requested hull","F06"),("conservative in both tails","F05"),
("strauss simulates","D06"),("default covariance anew","D05"),("any iterable of radii","D05"),("shuffles the caller","G05"),
("without any spatial neighbors","G05"),("KnoxLocal.sim","G03"),("connected components","G04"),("table next to","G07"),
("zero points","D07"),("parents when they do not divide","D07"),("can be drawn at all","D07"),("resolution per dimension","H01"),("no longer depends on the unit","B03"),
("minimum bounding circle is","B02"),("dtot accepts","B05"),("is found when it","B03"),("gets stuck","B03"),("tests ignores the metric","F05"),("colour chosen for insignificant","G04"),("events with float identifiers","G04"),
 ("cannot search with its explanation","X02"),("refusal of a misaligned","X10"),
 *[(k,"X06") for k in ("area of a bounding box of integers","patterns of narrow integers","dtot of integers","unsigned points","density plots of narrow","resolution that is a NumPy","number of steps that is","size that is a NumPy","variances that are NumPy","cluster radii in integers","times stored in narrow")]]
fixed=[]
for l in log:
    if " fix: " not in l: continue
    h,s=l.split(" fix: ",1)
    m=[p for k,p in M if k in s]
    assert len(m)==1,(l,m)
    fixed.append(f"fixed: property={m[0]} {h} {s}")
d=json.load(open('known_findings.json')); d["fixed"]=fixed
json.dump(d,open('known_findings.json','w'),indent=1,ensure_ascii=False); print(len(fixed))
