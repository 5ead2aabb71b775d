// The vehicle models against a plain restatement of the bicycle model with delays, first order lags, limits and gears.
#include <autoware_vehicle_msgs/msg/gear_command.hpp>
#include <simple_sensor_simulator/vehicle_simulation/vehicle_model/sim_model.hpp>

#include <unistd.h>

#include <array>
#include <deque>

#include "vf.hpp"
using autoware_vehicle_msgs::msg::GearCommand;
using autoware::simulator::simple_planning_simulator::SimModelDelaySteerAccGearedWoFallGuard;

namespace
{
enum Kind { IDEAL_VEL, IDEAL_ACC, IDEAL_ACC_GEARED, DELAY_VEL, DELAY_ACC, DELAY_ACC_GEARED, WO_FALL_GUARD, MAP };
const char * const names[] = {"IdealSteerVel", "IdealSteerAcc", "IdealSteerAccGeared", "DelaySteerVel", "DelaySteerAcc", "DelaySteerAccGeared", "DelaySteerAccGearedWoFallGuard", "DelaySteerMapAccGeared"};

struct AccMap
{
  std::vector<double> vel, acc;
  std::vector<std::vector<double>> map;  // [acc][vel]
  bool empty() const { return map.empty(); }
  double at(double a, double v) const
  {
    v = std::min(std::max(v, vel.front()), vel.back());
    a = std::min(std::max(a, acc.front()), acc.back());
    std::size_t i = 0, j = 0;
    while (j + 2 < vel.size() && vel[j + 1] < v) ++j;
    while (i + 2 < acc.size() && acc[i + 1] < a) ++i;
    const double s = (v - vel[j]) / (vel[j + 1] - vel[j]), t = (a - acc[i]) / (acc[i + 1] - acc[i]);
    return (map[i][j] * (1 - s) + map[i][j + 1] * s) * (1 - t) + (map[i + 1][j] * (1 - s) + map[i + 1][j + 1] * s) * t;
  }
};
AccMap table(vf::Src & s)
{
  AccMap t;
  double v = s.real(-2, 2), a = s.real(-6, 0);
  for (std::size_t n = 2 + s.length(4); n; --n) t.vel.push_back(v), v += s.real(0.5, 6);
  for (std::size_t n = 2 + s.length(4); n; --n) t.acc.push_back(a), a += s.real(0.2, 3);
  for (std::size_t i = 0; i < t.acc.size(); ++i) {
    t.map.emplace_back();
    for (std::size_t j = 0; j < t.vel.size(); ++j) t.map.back().push_back(s.real(-5, 5));
  }
  return t;
}
std::string csv(const AccMap & t)
{
  std::ostringstream o;
  o << std::setprecision(17) << "default";
  for (const double v : t.vel) o << "," << v;
  o << "\n";
  for (std::size_t i = 0; i < t.acc.size(); ++i) {
    o << t.acc[i];
    for (const double m : t.map[i]) o << "," << m;
    o << "\n";
  }
  return o.str();
}
// a file in the directory of the run
struct File
{
  std::string path;
  explicit File(const std::string & text) : path("map_" + std::to_string(::getpid()) + ".csv") { std::ofstream(path) << text; }
  ~File() { ::unlink(path.c_str()); }
};

struct Params
{
  double vx_lim, steer_lim, vx_rate_lim, steer_rate_lim, wheelbase, dt, lon_delay, lon_tau, steer_delay, steer_tau, dead_band, bias, acc_scale, steer_scale;
};

double sat(double v, double limit) { return v > limit ? limit : v < -limit ? -limit : v; }

struct Ref
{
  Kind kind;
  Params p;
  AccMap map;
  double x = 0, y = 0, yaw = 0, vx = 0, steer = 0, acc = 0, pedal = 0;
  std::deque<double> lon, lat;
  double in_lon = 0, in_steer = 0, in_gear = 0, in_slope = 0, prev_in_vx = 0;
  int gear = GearCommand::DRIVE;
  bool near = false;  // a decision on a sign was a matter of rounding

  using V = std::array<double, 6>;  // x y yaw vx steer acc/pedal
  V get() const { return {x, y, yaw, vx, steer, kind == WO_FALL_GUARD ? pedal : acc}; }
  void set(const V & v)
  {
    x = v[0], y = v[1], yaw = v[2], vx = v[3], steer = v[4];
    (kind == WO_FALL_GUARD ? pedal : acc) = v[5];
  }
  double steer_rate(double measured, double desired) const
  {
    double diff = measured - desired;
    diff = diff > p.dead_band ? diff - p.dead_band : diff < -p.dead_band ? diff + p.dead_band : 0;
    return sat(-diff / std::max(p.steer_tau, 0.03), p.steer_rate_lim);
  }
  V derivative(const V & v, double u, double w) const
  {
    double speed = v[3], wheel = v[4], accel = 0, dsteer = 0, dacc = 0;
    const double tau = std::max(p.lon_tau, 0.03);
    switch (kind) {
      case IDEAL_VEL: speed = u, wheel = w; break;
      case IDEAL_ACC:
      case IDEAL_ACC_GEARED: wheel = w, accel = u; break;
      case DELAY_VEL:
        speed = sat(speed, p.vx_lim), wheel = sat(wheel, p.steer_lim);
        accel = sat((sat(u, p.vx_lim) - speed) / tau, p.vx_rate_lim);
        dsteer = steer_rate(wheel, sat(w, p.steer_lim));
        break;
      case DELAY_ACC:
      case DELAY_ACC_GEARED:
      case MAP: {
        speed = sat(speed, p.vx_lim), accel = sat(v[5], p.vx_rate_lim);
        double wanted = sat(u, p.vx_rate_lim) * p.acc_scale;
        if (kind == MAP && !map.empty()) wanted = map.at(wanted, speed);
        dacc = (wanted - accel) / tau;
        dsteer = steer_rate(wheel, sat(w, p.steer_lim) * p.steer_scale);
        break;
      }
      case WO_FALL_GUARD: {
        speed = sat(speed, p.vx_lim);
        const double pd = sat(v[5], p.vx_rate_lim);
        dacc = (sat(u, p.vx_rate_lim) * p.acc_scale - pd) / tau;
        dsteer = steer_rate(wheel + p.bias, sat(w, p.steer_lim) * p.steer_scale);
        const int g = static_cast<int>(in_gear);
        if (pd >= 0) {  // driven
          if (g == GearCommand::NONE || g == GearCommand::PARK) accel = 0;
          else if (g == GearCommand::NEUTRAL) accel = in_slope;
          else if (g == GearCommand::REVERSE || g == GearCommand::REVERSE_2) accel = in_slope - pd;
          else accel = in_slope + pd;
        } else {  // braked: against the motion, and holding on slopes up to the brake's force
          if (speed > 0) accel = in_slope + pd;
          else if (speed < 0) accel = in_slope - pd;
          else accel = -pd >= std::abs(in_slope) ? 0 : in_slope;
        }
      }
    }
    return {speed * std::cos(v[2]), speed * std::sin(v[2]), speed * std::tan(wheel) / p.wheelbase, accel, dsteer, dacc};
  }
  void update(double dt)
  {
    double u = in_lon, w = in_steer;
    if (kind >= DELAY_VEL) {
      lon.push_back(in_lon), lat.push_back(in_steer);
      u = lon.front(), w = lat.front();
      lon.pop_front(), lat.pop_front();
    }
    const V before = get();
    auto step = [&](const V & d, double h) {
      V r = before;
      for (std::size_t i = 0; i < 6; ++i) r[i] += d[i] * h;
      return r;
    };
    const V a = derivative(before, u, w);
    if (kind == WO_FALL_GUARD) {
      set(step(a, dt));
    } else {
      const V b = derivative(step(a, dt / 2), u, w), c = derivative(step(b, dt / 2), u, w), d = derivative(step(c, dt), u, w);
      V sum;
      for (std::size_t i = 0; i < 6; ++i) sum[i] = (a[i] + 2 * b[i] + 2 * c[i] + d[i]) / 6;
      set(step(sum, dt));
    }
    near = false;
    if (kind == IDEAL_VEL) vx = before[3];
    if (kind == IDEAL_VEL) acc = (in_lon - prev_in_vx) / dt, prev_in_vx = in_lon;
    if (kind == DELAY_VEL) acc = (vx - before[3]) / dt;
    if (kind == DELAY_ACC || kind == DELAY_ACC_GEARED || kind == MAP || kind == WO_FALL_GUARD) vx = sat(vx, p.vx_lim);
    if (kind == IDEAL_ACC_GEARED || kind == DELAY_ACC_GEARED || kind == MAP) {
      const bool forward = (gear >= GearCommand::DRIVE && gear <= GearCommand::DRIVE_18) || gear == GearCommand::LOW || gear == GearCommand::LOW_2;
      const bool backward = gear == GearCommand::REVERSE || gear == GearCommand::REVERSE_2;
      near = std::abs(vx) < 1e-9 && vx != 0;
      const bool stop = forward ? vx < 0 : backward ? vx > 0 : true;
      if (stop) {
        x = before[0], y = before[1], yaw = before[2], vx = 0;
        if (kind != IDEAL_ACC_GEARED) acc = -before[3] / dt;
      }
      if (kind == IDEAL_ACC_GEARED) acc = (vx - before[3]) / dt;
    }
    if (kind == WO_FALL_GUARD) {
      near = (std::abs(vx) < 1e-9 && vx != 0) || (std::abs(-pedal - std::abs(in_slope)) < 1e-9 && pedal < 0);
      if (before[3] * vx <= 0 && -pedal >= std::abs(in_slope)) vx = 0;
      acc = (vx - before[3]) / dt;
    }
  }
  double shown_vx() const { return kind == IDEAL_VEL ? in_lon : vx; }
  double shown_steer() const { return kind <= IDEAL_ACC_GEARED ? in_steer : kind == WO_FALL_GUARD ? steer + p.bias : steer; }
  double shown_ax() const { return kind == IDEAL_ACC ? in_lon : acc; }
  double shown_wz() const { return shown_vx() * std::tan(kind <= IDEAL_ACC_GEARED ? in_steer : steer) / p.wheelbase; }
};

std::shared_ptr<SimModelInterface> make(Kind k, const Params & p, const std::string & path)
{
  switch (k) {
    case IDEAL_VEL: return std::make_shared<SimModelIdealSteerVel>(p.wheelbase);
    case IDEAL_ACC: return std::make_shared<SimModelIdealSteerAcc>(p.wheelbase);
    case IDEAL_ACC_GEARED: return std::make_shared<SimModelIdealSteerAccGeared>(p.wheelbase);
    case DELAY_VEL: return std::make_shared<SimModelDelaySteerVel>(p.vx_lim, p.steer_lim, p.vx_rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.lon_delay, p.lon_tau, p.steer_delay, p.steer_tau, p.dead_band);
    case DELAY_ACC: return std::make_shared<SimModelDelaySteerAcc>(p.vx_lim, p.steer_lim, p.vx_rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.lon_delay, p.lon_tau, p.steer_delay, p.steer_tau, p.dead_band, p.acc_scale, p.steer_scale);
    case DELAY_ACC_GEARED: return std::make_shared<SimModelDelaySteerAccGeared>(p.vx_lim, p.steer_lim, p.vx_rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.lon_delay, p.lon_tau, p.steer_delay, p.steer_tau, p.dead_band, p.acc_scale, p.steer_scale);
    case WO_FALL_GUARD: return std::make_shared<SimModelDelaySteerAccGearedWoFallGuard>(p.vx_lim, p.steer_lim, p.vx_rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.lon_delay, p.lon_tau, p.steer_delay, p.steer_tau, p.dead_band, p.bias, p.acc_scale, p.steer_scale);
    default: return std::make_shared<SimModelDelaySteerMapAccGeared>(p.vx_lim, p.steer_lim, p.vx_rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.lon_delay, p.lon_tau, p.steer_delay, p.steer_tau, path);
  }
}
void compare(vf::Case & c, const char * what, double got, double expected)
{
  c.require(std::abs(got - expected) <= 1e-7 * std::max(1.0, std::abs(expected)), what, " is ", got, " instead of ", expected);
}
}  // namespace

VF_PROP("models move as the bicycle model with delays, limits and gears", 12000, 400000)
{
  const Kind kind = static_cast<Kind>(s.index(8));
  Ref r;
  r.kind = kind;
  Params & p = r.p;
  p.dt = s.pick({0.05, 0.1, 0.02, 1.0 / 30, 0.03});
  p.wheelbase = s.real(1, 6);
  p.vx_lim = s.chance(20) ? s.real(0.5, 5) : s.real(5, 50);
  p.steer_lim = s.real(0.1, 1);
  p.vx_rate_lim = s.real(0.5, 10);
  p.steer_rate_lim = s.real(0.1, 5);
  p.lon_delay = static_cast<double>(s.index(6)) * p.dt + s.pick({0.0, 0.0, 0.3, -0.3}) * p.dt;
  if (p.lon_delay < 0) p.lon_delay = 0;
  p.steer_delay = static_cast<double>(s.index(6)) * p.dt;
  p.lon_tau = s.pick({0.1, 0.0, 0.01, 0.5}) + s.real(0, 0.2);
  p.steer_tau = s.pick({0.27, 0.0, 0.02, 0.5}) + s.real(0, 0.2);
  p.dead_band = kind == MAP ? 0 : s.chance(50) ? 0 : s.real(0, 0.2);
  p.bias = kind == WO_FALL_GUARD && s.chance(60) ? s.real(-0.2, 0.2) : 0;
  p.acc_scale = kind == MAP || s.chance(40) ? 1 : s.real(0, 2);
  p.steer_scale = kind == MAP || s.chance(40) ? 1 : s.real(0, 2);
  std::string path;
  std::unique_ptr<File> file;
  if (kind == MAP) {
    r.map = s.chance(20) ? AccMap{} : table(s);
    if (!r.map.empty()) file = std::make_unique<File>(csv(r.map));
    path = file ? file->path : "missing.csv";
  }
  auto model = make(kind, p, path);
  if (s.chance(20) && kind != MAP && kind >= DELAY_ACC) {  // negative scaling factors count as zero
    Params q = p;
    q.acc_scale = -q.acc_scale, q.steer_scale = -q.steer_scale;
    p.acc_scale = std::max(0.0, q.acc_scale), p.steer_scale = std::max(0.0, q.steer_scale);
    model = make(kind, q, path);
  }
  c.log << names[kind] << " dt=" << p.dt << " wb=" << p.wheelbase << " vlim=" << p.vx_lim << " slim=" << p.steer_lim << " alim=" << p.vx_rate_lim << " srlim=" << p.steer_rate_lim << " delay=" << p.lon_delay << "/"
        << p.steer_delay << " tau=" << p.lon_tau << "/" << p.steer_tau << " db=" << p.dead_band << " bias=" << p.bias << " scale=" << p.acc_scale << "/" << p.steer_scale;
  c.label(names[kind]);
  if (kind >= DELAY_VEL) {
    r.lon.assign(static_cast<std::size_t>(std::llround(p.lon_delay / p.dt)), 0.0);
    r.lat.assign(static_cast<std::size_t>(std::llround(p.steer_delay / p.dt)), 0.0);
  }
  c.require(model->getGear() == GearCommand::DRIVE, "the first gear is ", int(model->getGear()));
  const int dim = model->getDimX();
  static const int dims[] = {3, 4, 4, 5, 6, 6, 7, 6}, inputs[] = {2, 2, 2, 2, 2, 2, 4, 2};
  c.require(dim == dims[kind] && model->getDimU() == inputs[kind], "dimensions ", dim, " ", model->getDimU());
  auto state = [&] {
    Eigen::VectorXd v = Eigen::VectorXd::Zero(dim);
    v(0) = r.x, v(1) = r.y;
    if (kind == IDEAL_VEL) v(2) = r.yaw;
    else if (kind <= IDEAL_ACC_GEARED) {  // X, Y, YAW, VX
      v(2) = r.yaw, v(3) = r.vx;
    } else {
      v(2) = r.yaw, v(3) = r.vx, v(4) = r.steer;
      if (dim > 5) v(5) = r.acc;
      if (dim > 6) v(6) = r.pedal;
    }
    return v;
  };
  if (s.chance(70)) {
    r.x = s.real(-1e3, 1e3), r.y = s.real(-1e3, 1e3), r.yaw = s.real(-4, 4);
    r.vx = s.chance(30) ? 0 : s.real(-10, 30);
    r.steer = s.real(-0.5, 0.5);
    r.acc = s.real(-3, 3), r.pedal = s.real(-3, 3);
    if (kind == IDEAL_VEL) r.vx = r.acc = 0;
    if (kind == IDEAL_ACC_GEARED || kind == DELAY_VEL) r.acc = 0;
    const auto v = state();
    model->setState(v);
    Eigen::VectorXd back;
    model->getState(back);
    c.require(back == v, "the state set is not the state got");
    c.log << " from x=" << r.x << " y=" << r.y << " yaw=" << r.yaw << " vx=" << r.vx << " steer=" << r.steer << " acc=" << r.acc << " pedal=" << r.pedal;
  }
  const std::size_t n = s.length(1, 60);
  bool moved = false;
  const int preference = static_cast<int>(s.index(4));
  for (std::size_t i = 0; i < n; ++i) {
    if (i == 0 || s.chance(30)) {
      r.in_lon = kind == IDEAL_VEL || kind == DELAY_VEL ? s.real(-10, 20) : preference == 1 ? s.real(-8, 0) : s.real(-8, 6);
      r.in_steer = s.real(-1.2, 1.2);
      Eigen::VectorXd u = Eigen::VectorXd::Zero(model->getDimU());
      u(0) = r.in_lon;
      if (kind == WO_FALL_GUARD) {
        r.in_slope = s.chance(40) ? 0 : s.real(-2, 2);
        r.in_gear = s.chance(60) ? GearCommand::DRIVE : static_cast<int>(s.draw(25));
        u(1) = r.in_gear, u(2) = r.in_slope, u(3) = r.in_steer;
        c.log << " in " << r.in_lon << " " << r.in_gear << " " << r.in_slope << " " << r.in_steer;
      } else {
        u(1) = r.in_steer;
        c.log << " in " << r.in_lon << " " << r.in_steer;
      }
      model->setInput(u);
      Eigen::VectorXd back;
      model->getInput(back);
      c.require(back == u, "the input set is not the input got");
    }
    if (s.chance(15)) {
      r.gear = preference == 2 ? s.pick({int(GearCommand::REVERSE), int(GearCommand::REVERSE_2)}) : static_cast<int>(s.draw(25));
      model->setGear(static_cast<std::uint8_t>(r.gear));
      c.log << " gear " << r.gear;
      c.require(model->getGear() == r.gear, "the gear got is not the gear set");
    }
    model->update(p.dt);
    r.update(p.dt);
    c.log << " step";
    if (r.near) {  // the sign of a speed of almost zero decides: take over what the model did
      c.label("sign undecided");
      Eigen::VectorXd v;
      model->getState(v);
      if (kind != WO_FALL_GUARD && std::abs(v(3)) > 1e-9) c.fail("the speed is ", v(3), " instead of about 0");
      return;
    }
    compare(c, "x", model->getX(), r.x);
    compare(c, "y", model->getY(), r.y);
    compare(c, "yaw", model->getYaw(), r.yaw);
    compare(c, "vx", model->getVx(), r.shown_vx());
    compare(c, "steer", model->getSteer(), r.shown_steer());
    compare(c, "wz", model->getWz(), r.shown_wz());
    compare(c, "ax", model->getAx(), r.shown_ax());
    c.require(model->getVy() == 0, "vy is ", model->getVy());
    moved |= std::abs(r.shown_vx()) > 0.1;
  }
  if (moved && n > 2) c.nontrivial();
}

VF_PROP("acceleration maps interpolate and are clamped", 20000, 400000)
{
  AccMap t = table(s);
  std::string text = csv(t);
  int broken = 0;
  if (s.chance(20)) {
    broken = 1 + static_cast<int>(s.index(4));
    if (broken == 1) text = "";
    if (broken == 2) text = "default\n1\n2\n";
    if (broken == 3) text += "1.5\n";
    if (broken == 4) text.resize(text.size() - 1), text += ",1\n";
    c.label("broken file");
  }
  c.log << text << broken;
  File f(text);
  AccelerationMap m;
  const bool ok = m.readAccelerationMapFromCSV(s.chance(3) ? f.path + ".none" : f.path);
  if (broken) c.require(!ok && m.acceleration_map_.empty(), "a broken map was accepted");
  if (broken || !ok) return;
  c.require(m.acceleration_map_ == t.map, "the values read are others");
  for (int k = 0; k < 6; ++k) {
    double a = s.real(-10, 10), v = s.real(-10, 30);
    if (s.chance(30)) a = s.pick(t.acc);
    if (s.chance(30)) v = s.pick(t.vel);
    c.log << " (" << a << "," << v << ")";
    compare(c, "the mapped acceleration", m.getAcceleration(a, v), t.at(a, v));
  }
  for (const bool up : {true, false}) {
    bool good = true;
    for (std::size_t i = 1; i < t.map.size(); ++i) {
      for (std::size_t j = 0; j < t.vel.size(); ++j) good &= up ? t.map[i][j] > t.map[i - 1][j] : t.map[i][j] < t.map[i - 1][j];
    }
    c.require(CSVLoader::validateMap(t.map, up) == good, "the map's order was judged ", !good);
  }
  c.nontrivial();
}
