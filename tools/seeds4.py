"""Fourth batch of planted bugs: the interpreter, driven through its node on the stand-in world."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk, V
sys.path.insert(0, V)
import targets, vbuild
R="/repo"
libs,tg,_=targets.define(R, V, vbuild.GEN if hasattr(vbuild,"GEN") else f"{V}/build/gen")
def sources():
    seen=[];out=[]
    def go(n):
        if n in seen: return
        seen.append(n)
        for d in libs[n].libs: go(d)
        out.extend(libs[n].srcs)
    go("interp")
    return [s for s in out if s.startswith(R)]
SRCS=sources()
OI="openscenario/openscenario_interpreter"
INCS=[f"{V}/harness", f"{V}/shim/world", f"{V}/shim/include"]+[i for i in libs["inc"].incs if i.startswith(R)]+[f"{V}/build/gen/msgs", f"{V}/build/gen/proto", "/usr/include/eigen3"]
_cache={}
def inc():
    if _cache: return dict(_cache)
    p="/tmp/_demo.cpp"
    open(p,"w").write(f'#include "{V}/shim/interpreter_pch.hpp"\n#include "{V}/harness/interp.cpp"\n'+"".join(f'#include "{s}"\n' for s in SRCS))
    r=subprocess.run(["g++","-std=c++17","-M",p]+[f"-I{i}" for i in INCS]+[f"-I{V}/shim"],capture_output=True,text=True)
    assert r.returncode==0,r.stderr[:3000]
    for f in r.stdout.replace("\\\n"," ").split()[1:]:
        f=os.path.normpath(f)
        if "/build/gen/proto/" in f: continue
        if f.startswith(V) and not f.endswith("interp.cpp"):
            for i in sorted(INCS+[f"{V}/shim"],key=len,reverse=True):
                if f.startswith(i+"/"):
                    _cache["inc/"+os.path.relpath(f,i)]=open(f).read().replace("../../prelude.hpp","prelude.hpp"); break
    _cache["interp.cpp"]=open(f"{V}/harness/interp.cpp").read()
    return dict(_cache)
HEAD='''#include "interp.hpp"
#include <iostream>
#include <nlohmann/json.hpp>
#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while (0)
using nlohmann::json;
const std::string car = "<Vehicle name=\\"c\\" vehicleCategory=\\"car\\"><Performance maxSpeed=\\"50\\" maxAcceleration=\\"10\\" maxDeceleration=\\"10\\"/><BoundingBox><Center x=\\"1\\" y=\\"0\\" z=\\"1\\"/><Dimensions width=\\"2\\" length=\\"4\\" height=\\"1.5\\"/></BoundingBox><Axles><FrontAxle maxSteering=\\"0.5\\" wheelDiameter=\\"0.6\\" trackWidth=\\"1.7\\" positionX=\\"3\\" positionZ=\\"0.3\\"/><RearAxle maxSteering=\\"0.5\\" wheelDiameter=\\"0.6\\" trackWidth=\\"1.7\\" positionX=\\"0\\" positionZ=\\"0.3\\"/></Axles><Properties/></Vehicle>";
inline std::string document(const std::string & storyboard, const std::string & parameters = "")
{
  return "<?xml version=\\"1.0\\"?><OpenSCENARIO><FileHeader revMajor=\\"1\\" revMinor=\\"1\\" date=\\"2026-01-01T00:00:00\\" description=\\"x\\" author=\\"v\\"/><ParameterDeclarations>" + parameters + "</ParameterDeclarations><CatalogLocations/><RoadNetwork><LogicFile filepath=\\"" + interp::map_dir() + "\\"/></RoadNetwork><Entities><ScenarioObject name=\\"car\\">" + car + "</ScenarioObject></Entities><Storyboard><Init><Actions><Private entityRef=\\"car\\"><PrivateAction><TeleportAction><Position><LanePosition laneId=\\"1\\" s=\\"5\\" offset=\\"0\\"/></Position></TeleportAction></PrivateAction></Private></Actions></Init>" + storyboard + "</Storyboard></OpenSCENARIO>";
}
inline std::string after(double t, const std::string & extra = " delay=\\"0\\" conditionEdge=\\"none\\"") { return "<StartTrigger><ConditionGroup><Condition name=\\"c\\"" + extra + "><ByValueCondition><SimulationTimeCondition value=\\"" + std::to_string(t) + "\\" rule=\\"greaterThan\\"/></ByValueCondition></Condition></ConditionGroup></StartTrigger>"; }
inline std::string command(const std::string & type, const std::string & name = "a") { return "<Action name=\\"" + name + "\\"><UserDefinedAction><CustomCommandAction type=\\"" + type + "\\"/></UserDefinedAction></Action>"; }
inline std::string event(const std::string & name, const std::string & priority, const std::string & inside, const std::string & more = "") { return "<Event name=\\"" + name + "\\" priority=\\"" + priority + "\\"" + more + ">" + inside + "</Event>"; }
inline std::string story(const std::string & events, const std::string & act = "", const std::string & group = "") { return "<Story name=\\"s\\"><Act name=\\"t\\"><ManeuverGroup name=\\"g\\"" + group + "><Actors selectTriggeringEntities=\\"false\\"/><Maneuver name=\\"m\\">" + events + "</Maneuver></ManeuverGroup>" + act + "</Act></Story><StopTrigger/>"; }
struct Run { std::string last; interp::Result result; std::vector<json> frames; std::vector<double> times; };
inline Run run(const std::string & text, long frames = 60)
{
  Run r;
  interp::reset_world();
  interp::Options o;
  o.osc = interp::scratch() + "/s/a.xosc", o.out = interp::scratch() + "/out", o.max_frames = frames;
  interp::write(o.osc, text);
  double before = 0;
  o.on_frame = [&](const interp::Frame & f) {
    r.last = f.context;
    auto j = json::parse(f.context, nullptr, false);
    if (j.is_object() and j.contains("OpenSCENARIO") and j.at("OpenSCENARIO").contains("Storyboard")) r.frames.push_back(j.at("OpenSCENARIO").at("Storyboard")), r.times.push_back(before);
    before = f.time;
    return true;
  };
  r.result = interp::run(o);
  return r;
}
inline const json & act(const json & j) { return j.at("Story")[0].at("Act")[0]; }
inline const json & group(const json & j) { return act(j).at("ManeuverGroup")[0]; }
inline const json & ev(const json & j, int i) { return group(j).at("Maneuver")[0].at("Event")[i]; }
inline std::string state(const json & j) { return j.at("currentState"); }
'''
N=8
def it(id,prop,needs,what,edits,body,prefix=OI):
    files=inc(); files["demo.cpp"]=HEAD+body
    rel=[s[len(R)+1:] for s in SRCS]
    chunks="\n".join(f"{i%N} {s}" for i,s in enumerate(rel))
    files["sources.txt"]=chunks+"\n"
    I=" ".join(f"-I$R/{i[len(R)+1:]}" for i in INCS if i.startswith(R))
    mk(id,prop,needs,what,{(f"{prefix}/{k}" if not k.startswith("/") else k[1:]):v for k,v in edits.items()},files,
f'''mkdir -p "$T/proto/simulation_interface" "$T/pch"
protoc --proto_path="$R/simulation/simulation_interface/proto" --cpp_out="$T/proto/simulation_interface" "$R"/simulation/simulation_interface/proto/*.proto
F="-std=c++17 -O0 -w -I$here -I$here/inc {I} -I$T/proto -I$T/proto/simulation_interface -I/usr/include/eigen3"
g++ $F -x c++-header -c "$here/inc/interpreter_pch.hpp" -o "$T/pch/pch.hpp.gch"
echo '#include "interpreter_pch.hpp"' > "$T/pch/pch.hpp"
python3 - "$R" "$here" "$T" <<'X'
import sys, os, glob
R, here, T = sys.argv[1:]
fs = [R + "/" + l.split()[1] for l in open(here + "/sources.txt")]
out = [here + "/demo.cpp", here + "/interp.cpp"] + sorted(glob.glob(T + "/proto/simulation_interface/*.cc"))
own = [f for f in fs if "/openscenario_interpreter/src/" in f]
out += [f for f in fs if f not in own]
n = 24
for k in range(n):
    p = f"{{T}}/u{{k}}.cpp"
    open(p, "w").write("".join('#include "' + f + '"' + chr(10) for f in own[k::n]))
    out.append(p)
open(T + "/all", "w").write(chr(10).join(out[::-1]) + chr(10))
X
cat > "$T/one.sh" <<X
case "\\$2" in *.cc) g++ $F -c "\\$2" -o "$T/\\$1.o";; *) g++ $F -include $T/pch/pch.hpp -c "\\$2" -o "$T/\\$1.o";; esac
X
n=0; while read f; do n=$((n+1)); echo "$n $f"; done < "$T/all" | xargs -P 8 -L 1 bash "$T/one.sh"
g++ -o "$T/demo" "$T"/*.o -lprotobuf -lpugixml -lglog -lboost_json -lboost_system -lpthread
cd "$T"; timeout 60 "$T/demo"''')
if __name__=="__main__":
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"seeds4_list.py")).read())
