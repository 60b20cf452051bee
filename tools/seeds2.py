"""Second batch of planted bugs: geometry.  Demos carry the few message headers they need."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk, V
R="/repo"
G=f"{R}/common/math/geometry"
INCS=[f"{G}/include", f"{R}/common/scenario_simulator_exception/include", f"{V}/build/gen/msgs", f"{V}/build/gen", f"{V}/shim/include", "/usr/include/eigen3"]
def headers(src, pre=True, incs=INCS):
    """the stand-in headers a demo needs, as {name beside the demo: text}"""
    p="/tmp/_demo.cpp"; open(p,"w").write(src)
    cmd=["g++","-std=c++17","-M",p]+[f"-I{i}" for i in incs]+(["-include",f"{V}/shim/prelude.hpp"] if pre else [])
    cmd+=[f for f in EXTRA]
    out=subprocess.run(cmd,capture_output=True,text=True)
    assert out.returncode==0,out.stderr[:3000]
    res={}
    for f in out.stdout.replace("\\\n"," ").split()[1:]:
        f=os.path.normpath(f)
        if f.startswith(V):
            for i in sorted(incs+[f"{V}/shim"],key=len,reverse=True):
                if f.startswith(i+"/"): res["inc/"+os.path.relpath(f,i)]=open(f).read().replace("../../prelude.hpp","prelude.hpp"); break
    return res
EXTRA=[]
def geo(id,prop,needs,what,edits,body,srcs=("src/*.cpp","src/*/*.cpp")):
    import glob
    demo='#include <iostream>\n#include <string>\n#include <vector>\n#include <cmath>\n#include <limits>\n#include <optional>\n#include <set>\n#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while (0)\n'+body
    every=demo+"".join(f'\n#include "{f}"' for pat in srcs for f in sorted(glob.glob(f"{G}/{pat}")))
    h=headers(every)
    mk(id,prop,needs,what,{f"common/math/geometry/{k}":v for k,v in edits.items()},{"demo.cpp":demo,**h},
f'''S="$(find $R/common/math/geometry/src $R/common/scenario_simulator_exception/src -name '*.cpp')"
I="-I$R/common/math/geometry/include -I$R/common/scenario_simulator_exception/include -I$here/inc -I/usr/include/eigen3"
i=0; for f in "$here/demo.cpp" $S; do i=$((i+1)); g++ -std=c++17 -O0 -w -include "$here/inc/prelude.hpp" $I -c "$f" -o "$T/$i.o" & done; wait
g++ -o "$T/demo" "$T"/*.o
"$T/demo"''')
PT='static geometry_msgs::msg::Point pt(double x, double y, double z = 0) { geometry_msgs::msg::Point p; p.x = x; p.y = y; p.z = z; return p; }\n'
if __name__=="__main__":
    geo("C16-double-root-scaled","C16","a quadratic equation with a double root whose leading coefficient is not one","The double root of a quadratic equation is scaled by the square of its leading coefficient.",
     {"src/solver/polynomial_solver.cpp":[("      return {-coef_b / (2 * coef_a)};","      return {-coef_b / 2 * coef_a};")]},
'''#include <geometry/solver/polynomial_solver.hpp>
int main()
{
  math::geometry::PolynomialSolver s;
  auto one = s.solveQuadraticEquation(1, -1, .25, 0, 1);
  CHECK(one.size() == 1 && std::abs(one[0] - .5) < 1e-6);
  auto two = s.solveQuadraticEquation(2, -2, .5, 0, 1);   // 2 (x - 1/2)^2
  CHECK(two.size() == 1 && std::abs(two[0] - .5) < 1e-6);
}
''')
    geo("C17-backward-wrong-piece","C17","searching backward for the crossing of a segment with a piece other than the middle one","The last crossing of a curve with a segment is reported in the mirrored piece.",
     {"src/spline/catmull_rom_spline.cpp":[("        return getSInSplineCurve(n - 1 - i, s.value());","        return getSInSplineCurve(i, s.value());")]},
'''#include <geometry/spline/catmull_rom_spline.hpp>
'''+PT+'''int main()
{
  math::geometry::CatmullRomSpline c(std::vector<geometry_msgs::msg::Point>{pt(0, 0), pt(10, 0), pt(20, 0), pt(30, 0)});
  auto f = c.getCollisionPointIn2D(pt(5, -1), pt(5, 1), false), b = c.getCollisionPointIn2D(pt(5, -1), pt(5, 1), true);
  CHECK(f && b && std::abs(*f - 5) < .1 && std::abs(*b - 5) < .1);
}
''')
    geo("C17-range-forgets-started-piece","C17","a range that starts inside a piece of the curve and a crossing later in that piece","Crossings in the piece in which the range starts are lost.",
     {"src/spline/catmull_rom_spline.cpp":[("        (current_curve_start_s + curve.getLength()) > s_range->first) {","        (current_curve_start_s + curve.getLength()) < s_range->first) {")]},
'''#include <geometry/spline/catmull_rom_spline.hpp>
'''+PT+'''int main()
{
  math::geometry::CatmullRomSpline c(std::vector<geometry_msgs::msg::Point>{pt(0, 0), pt(10, 0), pt(20, 0), pt(30, 0)});
  auto all = c.getCollisionPointIn2D({pt(17, -1), pt(17, 1), pt(17.5, 1)}, false);
  auto part = c.getCollisionPointIn2D({pt(17, -1), pt(17, 1), pt(17.5, 1)}, false, std::make_pair(12.0, 25.0));
  CHECK(all && part && std::abs(*all - *part) < 1e-9);
}
''')
    geo("C18-difference-beyond-half-turn","C18","two orientations given by quaternions of opposite sign","The difference of two orientations exceeds half a turn when their quaternions have opposite signs.",
     {"include/geometry/quaternion/get_angle_difference.hpp":[("  const Eigen::AngleAxisd delta(q1.inverse() * q2);\n\n  return std::abs(delta.angle());  // [rad]","  const Eigen::Quaterniond delta(q1.inverse() * q2);\n\n  return 2 * std::atan2(delta.vec().norm(), delta.w());  // [rad]")] if "delta(q1.inverse() * q2);\n\n" in open(f"{G}/include/geometry/quaternion/get_angle_difference.hpp").read() else
      [("  const Eigen::AngleAxisd delta(q1.inverse() * q2);","  const Eigen::Quaterniond delta(q1.inverse() * q2);"),("  return std::abs(delta.angle());  // [rad]","  return 2 * std::atan2(delta.vec().norm(), delta.w());  // [rad]")]},
'''#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
int main()
{
  geometry_msgs::msg::Quaternion a, b;
  a.z = std::sin(.05); a.w = std::cos(.05);
  b.z = -std::sin(.1); b.w = -std::cos(.1);   // a turn by 0.2
  CHECK(std::abs(math::geometry::getAngleDifference(a, b) - .1) < 1e-6);
}
''',srcs=())
    geo("C18-interpolation-from-wrong-end","C18","interpolating between nearly equal orientations is fine; any other pair at a time other than the middle","Interpolation weighs the first orientation by the angle from the wrong end.",
     {"include/geometry/quaternion/slerp.hpp":[("    double t0 = std::sin(ph - pt) / sp;","    double t0 = std::sin(ph) / sp - t1;")]},
'''#include <geometry/quaternion/slerp.hpp>
int main()
{
  geometry_msgs::msg::Quaternion a, b;
  b.z = std::sin(.75); b.w = std::cos(.75);
  auto q = math::geometry::slerp(a, b, .25);
  CHECK(std::abs(q.z - std::sin(.1875)) < 1e-6 && std::abs(q.w - std::cos(.1875)) < 1e-6);
}
''',srcs=())
    geo("C19-projection-past-end","C19","two boxes closest at their corners","The closest point of a box's side may lie beyond the side's end.",
     {"src/bounding_box.cpp":[("  if (c2 <= c1) return p2;","  if (c2 <= 0) return p2;")]},
'''#include <geometry/bounding_box.hpp>
int main()
{
  geometry_msgs::msg::Pose a, b;
  b.position.x = 10; b.position.y = 10;
  traffic_simulator_msgs::msg::BoundingBox box;
  box.dimensions.x = 4; box.dimensions.y = 2; box.dimensions.z = 2;
  auto d = math::geometry::getPolygonDistance(a, box, b, box);
  auto c = math::geometry::getClosestPoses(a, box, b, box);
  CHECK(d && c);
  CHECK(std::abs(std::hypot(c->first.position.x - c->second.position.x, c->first.position.y - c->second.position.y) - *d) < 1e-9);
}
''')
    geo("C19-height-ignores-centre","C19","boxes whose centres are at different heights above their poses","Overlap in height is judged without the centre offset of the second box.",
     {"src/intersection/collision.cpp":[("(pose1.position.z + bbox1.center.z)","(pose1.position.z + bbox0.center.z)")]},
'''#include <geometry/intersection/collision.hpp>
int main()
{
  geometry_msgs::msg::Pose a, b;
  traffic_simulator_msgs::msg::BoundingBox x, y;
  x.dimensions.x = y.dimensions.x = 4; x.dimensions.y = y.dimensions.y = 2; x.dimensions.z = y.dimensions.z = 2;
  x.center.z = 1; y.center.z = 6;
  CHECK(!math::geometry::checkCollision2D(a, x, b, y));
  CHECK(!math::geometry::checkCollision2D(b, y, a, x));
}
''')
