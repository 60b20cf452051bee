#include "interp.hpp"
#include "vh.hpp"
#include <iostream>
int main(int c, char ** v)
{
  interp::prepare();
  interp::reset_world();
  interp::write(interp::map_dir() + "/x", "");
  interp::Options o;
  o.osc = interp::scratch() + "/s/a.xosc";
  std::string t = interp::slurp(v[1]);
  for (size_t p; (p = t.find("@MAP@")) != t.npos;) t.replace(p, 5, interp::map_dir());
  interp::write(o.osc, t);
  o.out = interp::scratch() + "/out";
  o.max_frames = c > 2 ? atol(v[2]) : 100;
  std::string last;
  o.on_frame = [&](const interp::Frame & f) { if (c > 3 and f.context != last) std::cout << f.time << " " << f.context << "\n"; last = f.context; return true; };
  auto r = interp::run(o);
  std::cout << r.configured << " " << r.activated << " " << r.ended << " " << r.finalized << " frames " << r.frames << " verdict " << r.verdict << " " << r.kind << " " << r.message << "\n" << r.junit << "\n";
  for (auto & q : vworld::state().requests) std::cout << q.time << " " << q.entity << " " << q.what << " " << q.value << " " << q.text << "\n";
  for (auto & q : interp::log()) std::cout << q << "\n";
}
