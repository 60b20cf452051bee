// A single-process stand-in for the part of rclcpp the project uses: nodes, parameters,
// topics and services over an in-memory bus, executors, timers on a settable clock.
#ifndef VERIF_RCLCPP_HPP_
#define VERIF_RCLCPP_HPP_
#include "../../prelude.hpp"
#include <algorithm>
#include <any>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <future>
#include <typeindex>
#include <builtin_interfaces/msg/duration.hpp>
#include <builtin_interfaces/msg/time.hpp>

enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
struct rmw_qos_profile_t {};
inline const rmw_qos_profile_t rmw_qos_profile_services_default{};
inline const rmw_qos_profile_t rmw_qos_profile_default{};

namespace vshim
{
// Simulated time in nanoseconds; below zero: the system clock.
inline std::atomic<std::int64_t> & clock_ns() { static std::atomic<std::int64_t> t{-1}; return t; }
inline std::atomic<bool> & log_to_stderr() { static std::atomic<bool> b{false}; return b; }
inline std::function<void(const std::string & level, const std::string & text)> & on_log() { static std::function<void(const std::string &, const std::string &)> f; return f; }
inline std::function<void(const std::string & topic, std::type_index, const void *)> & on_publish() { static std::function<void(const std::string &, std::type_index, const void *)> f; return f; }
inline std::map<std::string, std::any> & parameter_overrides() { static std::map<std::string, std::any> m; return m; }
inline void log(const std::string & level, const std::string & text)
{
  if (on_log()) on_log()(level, text);
  if (log_to_stderr()) std::fprintf(stderr, "[%s] %s\n", level.c_str(), text.c_str());
}
inline std::string format(const char * f, ...)
{
  char b[4096];
  va_list a;
  va_start(a, f);
  std::vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
inline std::string format(const std::string & s) { return s; }
}  // namespace vshim

#define RCLCPP_LOG_(LEVEL, LOGGER, ...) do { (void)(LOGGER); ::vshim::log(LEVEL, ::vshim::format(__VA_ARGS__)); } while (false)
#define RCLCPP_LOG_STREAM_(LEVEL, LOGGER, X) do { (void)(LOGGER); std::stringstream verif_ss_; verif_ss_ << X; ::vshim::log(LEVEL, verif_ss_.str()); } while (false)
#define RCLCPP_DEBUG(L, ...) RCLCPP_LOG_("DEBUG", L, __VA_ARGS__)
#define RCLCPP_INFO(L, ...) RCLCPP_LOG_("INFO", L, __VA_ARGS__)
#define RCLCPP_WARN(L, ...) RCLCPP_LOG_("WARN", L, __VA_ARGS__)
#define RCLCPP_ERROR(L, ...) RCLCPP_LOG_("ERROR", L, __VA_ARGS__)
#define RCLCPP_FATAL(L, ...) RCLCPP_LOG_("FATAL", L, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(L, ...) RCLCPP_LOG_("INFO", L, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(L, ...) RCLCPP_LOG_("WARN", L, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(L, ...) RCLCPP_LOG_("ERROR", L, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(L, X) RCLCPP_LOG_STREAM_("DEBUG", L, X)
#define RCLCPP_INFO_STREAM(L, X) RCLCPP_LOG_STREAM_("INFO", L, X)
#define RCLCPP_WARN_STREAM(L, X) RCLCPP_LOG_STREAM_("WARN", L, X)
#define RCLCPP_ERROR_STREAM(L, X) RCLCPP_LOG_STREAM_("ERROR", L, X)
#define RCLCPP_INFO_STREAM_ONCE(L, X) RCLCPP_LOG_STREAM_("INFO", L, X)
#define RCLCPP_WARN_STREAM_ONCE(L, X) RCLCPP_LOG_STREAM_("WARN", L, X)
#define RCLCPP_WARN_STREAM_THROTTLE(L, C, D, X) RCLCPP_LOG_STREAM_("WARN", L, X)
#define RCLCPP_WARN_THROTTLE(L, C, D, ...) RCLCPP_LOG_("WARN", L, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM_THROTTLE(L, C, D, X) RCLCPP_LOG_STREAM_("ERROR", L, X)
#define RCLCPP_SHARED_PTR_DEFINITIONS(...) using SharedPtr = std::shared_ptr<__VA_ARGS__>; using ConstSharedPtr = std::shared_ptr<const __VA_ARGS__>;

namespace rclcpp
{
class Logger
{
  std::string name;
public:
  explicit Logger(const std::string & n = "") : name(n) {}
  const char * get_name() const { return name.c_str(); }
  Logger get_child(const std::string & s) { return Logger(name + "." + s); }
};
inline Logger get_logger(const std::string & n) { return Logger(n); }

namespace exceptions
{
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };
}  // namespace exceptions
struct ParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::atomic<bool> & verif_ok() { static std::atomic<bool> b{false}; return b; }
struct Context { using SharedPtr = std::shared_ptr<Context>; };
inline void init(int, char const * const *) { verif_ok() = true; }
inline bool shutdown() { bool r = verif_ok(); verif_ok() = false; return r; }
inline bool ok() { return verif_ok(); }

class Duration
{
  std::int64_t ns = 0;
public:
  Duration() = default;
  Duration(std::int32_t s, std::uint32_t n) : ns(std::int64_t(s) * 1000000000 + n) {}
  explicit Duration(std::chrono::nanoseconds d) : ns(d.count()) {}
  template <typename R, typename P> Duration(const std::chrono::duration<R, P> & d) : ns(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns(std::int64_t(d.sec) * 1000000000 + d.nanosec) {}
  static Duration from_seconds(double s) { return from_nanoseconds(std::int64_t(s * 1e9)); }
  static Duration from_nanoseconds(std::int64_t n) { Duration d; d.ns = n; return d; }
  double seconds() const { return double(ns) / 1e9; }
  std::int64_t nanoseconds() const { return ns; }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    std::int64_t s = ns / 1000000000, r = ns % 1000000000;
    if (r < 0) { --s; r += 1000000000; }
    d.sec = std::int32_t(s); d.nanosec = std::uint32_t(r);
    return d;
  }
  bool operator<(const Duration & o) const { return ns < o.ns; }
  bool operator>(const Duration & o) const { return ns > o.ns; }
  bool operator<=(const Duration & o) const { return ns <= o.ns; }
  bool operator>=(const Duration & o) const { return ns >= o.ns; }
  bool operator==(const Duration & o) const { return ns == o.ns; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns + o.ns); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns - o.ns); }
  Duration operator*(double k) const { return from_nanoseconds(std::int64_t(double(ns) * k)); }
  std::chrono::nanoseconds to_chrono_ns() const { return std::chrono::nanoseconds(ns); }
};

class Time
{
  std::int64_t ns = 0;
  rcl_clock_type_t type = RCL_SYSTEM_TIME;
  void same(const Time & o) const { if (type != o.type) throw std::runtime_error("can't compare times with different time sources"); }
public:
  Time(std::int64_t n = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns(n), type(t) {}
  Time(std::int32_t s, std::uint32_t n, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns(std::int64_t(s) * 1000000000 + n), type(t) { if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns(std::int64_t(m.sec) * 1000000000 + m.nanosec), type(t) { if (m.sec < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time d;
    std::int64_t s = ns / 1000000000, r = ns % 1000000000;
    if (r < 0) { --s; r += 1000000000; }
    d.sec = std::int32_t(s); d.nanosec = std::uint32_t(r);
    return d;
  }
  double seconds() const { return double(ns) / 1e9; }
  std::int64_t nanoseconds() const { return ns; }
  rcl_clock_type_t get_clock_type() const { return type; }
  Time operator+(const Duration & d) const { return Time(ns + d.nanoseconds(), type); }
  Time operator-(const Duration & d) const { return Time(ns - d.nanoseconds(), type); }
  Duration operator-(const Time & o) const { same(o); return Duration::from_nanoseconds(ns - o.ns); }
  Time & operator+=(const Duration & d) { ns += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns -= d.nanoseconds(); return *this; }
  bool operator<(const Time & o) const { same(o); return ns < o.ns; }
  bool operator>(const Time & o) const { same(o); return ns > o.ns; }
  bool operator<=(const Time & o) const { same(o); return ns <= o.ns; }
  bool operator>=(const Time & o) const { same(o); return ns >= o.ns; }
  bool operator==(const Time & o) const { same(o); return ns == o.ns; }
  bool operator!=(const Time & o) const { same(o); return ns != o.ns; }
};

class Clock
{
  rcl_clock_type_t type;
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type(t) {}
  Time now() const
  {
    std::int64_t t = vshim::clock_ns();
    if (t < 0) t = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    return Time(t, type);
  }
  rcl_clock_type_t get_clock_type() const { return type; }
};

struct KeepLast { std::size_t depth; explicit KeepLast(std::size_t d) : depth(d) {} };
struct KeepAll {};
class QoS
{
public:
  std::size_t depth = 10;
  bool transient = false;
  QoS(std::size_t d = 10) : depth(d) {}
  QoS(KeepLast k) : depth(k.depth) {}
  QoS(KeepAll) : depth(1000000) {}
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & transient_local() { transient = true; return *this; }
  QoS & durability_volatile() { transient = false; return *this; }
  QoS & keep_last(std::size_t d) { depth = d; return *this; }
};
struct SensorDataQoS : QoS { SensorDataQoS() : QoS(5) {} };
struct SystemDefaultsQoS : QoS {};
struct ServicesQoS : QoS {};

struct SubscriptionOptions {};
struct PublisherOptions {};
template <typename A = std::allocator<void>> struct PublisherOptionsWithAllocator { PublisherOptionsWithAllocator() = default; PublisherOptionsWithAllocator(const PublisherOptions &) {} };
template <typename A = std::allocator<void>> struct SubscriptionOptionsWithAllocator { SubscriptionOptionsWithAllocator() = default; SubscriptionOptionsWithAllocator(const SubscriptionOptions &) {} };

enum class ParameterType { PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_OTHER };
class ParameterValue
{
  std::variant<std::monostate, bool, std::int64_t, double, std::string, std::vector<std::string>, std::vector<double>, std::vector<std::int64_t>, std::vector<bool>> v;
  template <typename U> const U & as() const { if (auto p = std::get_if<U>(&v)) return *p; throw ParameterTypeException("expected another parameter type"); }
public:
  ParameterValue() = default;
  ParameterValue(bool b) : v(b) {}
  ParameterValue(int i) : v(std::int64_t(i)) {}
  ParameterValue(std::int64_t i) : v(i) {}
  ParameterValue(float d) : v(double(d)) {}
  ParameterValue(double d) : v(d) {}
  ParameterValue(const std::string & s) : v(s) {}
  ParameterValue(const char * s) : v(std::string(s)) {}
  ParameterValue(const std::vector<std::string> & s) : v(s) {}
  ParameterValue(const std::vector<double> & s) : v(s) {}
  ParameterValue(const std::vector<std::int64_t> & s) : v(s) {}
  ParameterValue(const std::vector<bool> & s) : v(s) {}
  std::size_t index() const { return v.index(); }
  template <typename T> T get() const
  {
    if constexpr (std::is_same_v<T, bool>) return as<bool>();
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(as<std::int64_t>());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(as<double>());
    else return as<T>();
  }
};
class Parameter
{
  std::string name_;
  ParameterValue value_;
public:
  Parameter() = default;
  Parameter(const std::string & n, const ParameterValue & v) : name_(n), value_(v) {}
  template <typename T> Parameter(const std::string & n, T v) : name_(n), value_(v) {}
  const std::string & get_name() const { return name_; }
  const ParameterValue & get_parameter_value() const { return value_; }
  template <typename T> T get_value() const { return value_.get<T>(); }
  bool as_bool() const { return value_.get<bool>(); }
  std::int64_t as_int() const { return value_.get<std::int64_t>(); }
  double as_double() const { return value_.get<double>(); }
  std::string as_string() const { return value_.get<std::string>(); }
};

class NodeOptions
{
public:
  std::vector<Parameter> overrides;
  bool auto_declare = false;
  NodeOptions & automatically_declare_parameters_from_overrides(bool b) { auto_declare = b; return *this; }
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
  NodeOptions & use_global_arguments(bool) { return *this; }
  NodeOptions & use_intra_process_comms(bool) { return *this; }
  NodeOptions & start_parameter_services(bool) { return *this; }
  NodeOptions & enable_rosout(bool) { return *this; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { overrides = p; return *this; }
  std::vector<Parameter> & parameter_overrides() { return overrides; }
  NodeOptions & append_parameter_override(const std::string & n, const ParameterValue & v) { overrides.emplace_back(n, v); return *this; }
  NodeOptions & arguments(const std::vector<std::string> &) { return *this; }
};

// ---- bus
struct SubscriptionBase
{
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
  std::string topic;
  std::size_t depth = 10;
  virtual ~SubscriptionBase() = default;
  virtual void offer(std::type_index, const std::shared_ptr<const void> &) = 0;
  virtual bool take() = 0;   // run one pending callback
};
struct ServiceBase { using SharedPtr = std::shared_ptr<ServiceBase>; virtual ~ServiceBase() = default; virtual bool take() = 0; };
struct ClientBase { using SharedPtr = std::shared_ptr<ClientBase>; virtual ~ClientBase() = default; };
struct Bus
{
  std::recursive_mutex m;
  std::multimap<std::string, std::weak_ptr<SubscriptionBase>> subs;
  std::map<std::string, std::pair<std::type_index, std::shared_ptr<const void>>> last;
  std::map<std::string, std::weak_ptr<void>> services;
  static Bus & get() { static Bus * b = new Bus; return *b; }
  static std::string norm(const std::string & t) { return !t.empty() && t[0] == '/' ? t : "/" + t; }
};

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  using WeakPtr = std::weak_ptr<TimerBase>;
  std::function<void()> f;
  std::chrono::nanoseconds period;
  std::atomic<std::int64_t> next{0};
  std::atomic<bool> cancelled{false};
  static std::int64_t now() { std::int64_t t = vshim::clock_ns(); return t >= 0 ? t : std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  TimerBase(std::chrono::nanoseconds p, std::function<void()> g) : f(std::move(g)), period(p) { next = now() + p.count(); }
  void cancel() { cancelled = true; }
  void reset() { cancelled = false; next = now() + period.count(); }
  bool is_canceled() { return cancelled; }
  bool is_ready() { return !cancelled && now() >= next; }
  void execute_callback() { f(); }
  std::chrono::nanoseconds time_until_trigger() { return std::chrono::nanoseconds(next.load() - now()); }
  bool fire()
  {
    if (!is_ready()) return false;
    next = std::max(next + period.count(), now());
    f();
    return true;
  }
};
template <typename F> struct WallTimerT : TimerBase { using TimerBase::TimerBase; };
using WallTimer = TimerBase;

namespace node_interfaces
{
struct NodeBaseInterface
{
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
  std::recursive_mutex m;
  std::vector<std::weak_ptr<SubscriptionBase>> subscriptions;
  std::vector<std::weak_ptr<ServiceBase>> services;
  std::vector<std::weak_ptr<TimerBase>> timers;
  std::string name;
  const char * get_name() const { return name.c_str(); }
  bool spin_some()
  {
    bool any = false;
    std::vector<std::shared_ptr<SubscriptionBase>> s;
    std::vector<std::shared_ptr<ServiceBase>> v;
    std::vector<std::shared_ptr<TimerBase>> t;
    {
      std::lock_guard<std::recursive_mutex> g(m);
      for (auto & w : subscriptions) if (auto p = w.lock()) s.push_back(p);
      for (auto & w : services) if (auto p = w.lock()) v.push_back(p);
      for (auto & w : timers) if (auto p = w.lock()) t.push_back(p);
    }
    for (auto & p : t) any |= p->fire();
    for (auto & p : s) any |= p->take();
    for (auto & p : v) any |= p->take();
    return any;
  }
};
struct NodeTimersInterface
{
  using SharedPtr = std::shared_ptr<NodeTimersInterface>;
  NodeBaseInterface::SharedPtr base;
  void add_timer(const TimerBase::SharedPtr & t) { std::lock_guard<std::recursive_mutex> g(base->m); base->timers.push_back(t); }
};
struct NodeParametersInterface
{
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  std::mutex m;
  std::map<std::string, ParameterValue> values, overrides;
  bool has_parameter(const std::string & n) { std::lock_guard<std::mutex> g(m); return values.count(n) != 0; }
  ParameterValue declare_parameter(const std::string & n, const ParameterValue & v)
  {
    std::lock_guard<std::mutex> g(m);
    if (values.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
    auto i = overrides.find(n);
    if (i != overrides.end() && i->second.index() != v.index() && v.index() != 0) throw exceptions::InvalidParameterTypeException("parameter '" + n + "' has invalid type");
    return values[n] = i != overrides.end() ? i->second : v;
  }
  Parameter get_parameter(const std::string & n)
  {
    std::lock_guard<std::mutex> g(m);
    auto i = values.find(n);
    if (i == values.end()) throw exceptions::ParameterNotDeclaredException(n);
    return Parameter(n, i->second);
  }
  void set(const std::string & n, const ParameterValue & v) { std::lock_guard<std::mutex> g(m); values[n] = v; }
};
struct NodeTopicsInterface { using SharedPtr = std::shared_ptr<NodeTopicsInterface>; NodeBaseInterface::SharedPtr base; };
struct NodeClockInterface { using SharedPtr = std::shared_ptr<NodeClockInterface>; };
struct NodeLoggingInterface { using SharedPtr = std::shared_ptr<NodeLoggingInterface>; };
struct NodeServicesInterface { using SharedPtr = std::shared_ptr<NodeServicesInterface>; };
struct NodeGraphInterface { using SharedPtr = std::shared_ptr<NodeGraphInterface>; };
}  // namespace node_interfaces

template <typename M, typename A = std::allocator<void>>
class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher>;
  using ROSMessageType = M;
  using MessageType = M;
  std::string topic;
  bool transient = false;
  std::atomic<std::uint64_t> published{0};
  virtual ~Publisher() = default;
  virtual void publish(const M & m) { send(std::make_shared<M>(m)); }
  virtual void publish(std::unique_ptr<M> m) { send(std::shared_ptr<M>(std::move(m))); }
  std::size_t get_subscription_count() const { auto & b = Bus::get(); std::lock_guard<std::recursive_mutex> g(b.m); std::size_t n = 0; for (auto [i, e] = b.subs.equal_range(topic); i != e; ++i) n += !i->second.expired(); return n; }
  const char * get_topic_name() const { return topic.c_str(); }
protected:
  void send(std::shared_ptr<const M> p)
  {
    ++published;
    if (vshim::on_publish()) vshim::on_publish()(topic, typeid(M), p.get());
    auto & b = Bus::get();
    std::vector<std::shared_ptr<SubscriptionBase>> to;
    {
      std::lock_guard<std::recursive_mutex> g(b.m);
      if (transient) b.last.insert_or_assign(topic, std::make_pair(std::type_index(typeid(M)), std::shared_ptr<const void>(p)));
      for (auto [i, e] = b.subs.equal_range(topic); i != e;) { if (auto s = i->second.lock()) { to.push_back(s); ++i; } else i = b.subs.erase(i); }
    }
    for (auto & s : to) s->offer(typeid(M), p);
  }
};

template <typename M, typename A = std::allocator<void>>
class Subscription : public SubscriptionBase
{
  std::mutex m;
  std::deque<std::shared_ptr<const M>> q;
public:
  using SharedPtr = std::shared_ptr<Subscription>;
  std::function<void(std::shared_ptr<const M>)> f;
  void offer(std::type_index t, const std::shared_ptr<const void> & p) override
  {
    if (t != typeid(M)) return;
    std::lock_guard<std::mutex> g(m);
    q.push_back(std::static_pointer_cast<const M>(p));
    while (q.size() > depth) q.pop_front();
  }
  bool take() override
  {
    std::shared_ptr<const M> p;
    { std::lock_guard<std::mutex> g(m); if (q.empty()) return false; p = q.front(); q.pop_front(); }
    f(p);
    return true;
  }
};

template <typename S>
class Service : public ServiceBase, public std::enable_shared_from_this<Service<S>>
{
public:
  using SharedPtr = std::shared_ptr<Service>;
  using Req = std::shared_ptr<typename S::Request>;
  using Res = std::shared_ptr<typename S::Response>;
  std::string name;
  std::function<void(Req, Res)> f;
  std::mutex m;
  std::deque<std::tuple<Req, std::function<void(Res)>>> q;
  bool take() override
  {
    std::tuple<Req, std::function<void(Res)>> x;
    { std::lock_guard<std::mutex> g(m); if (q.empty()) return false; x = q.front(); q.pop_front(); }
    auto res = std::make_shared<typename S::Response>();
    f(std::get<0>(x), res);
    std::get<1>(x)(res);
    return true;
  }
};
template <typename S>
class Client : public ClientBase
{
public:
  using SharedPtr = std::shared_ptr<Client>;
  using SharedFuture = std::shared_future<std::shared_ptr<typename S::Response>>;
  struct FutureAndRequestId { std::shared_future<std::shared_ptr<typename S::Response>> future; std::int64_t request_id = 0;
    template <typename D> std::future_status wait_for(const D & d) { return future.wait_for(d); } auto get() { return future.get(); } bool valid() const { return future.valid(); } auto share() { return future; } };
  std::string name;
  std::shared_ptr<Service<S>> find()
  {
    auto & b = Bus::get();
    std::lock_guard<std::recursive_mutex> g(b.m);
    auto i = b.services.find(name);
    return i == b.services.end() ? nullptr : std::static_pointer_cast<Service<S>>(i->second.lock());
  }
  bool service_is_ready() { return bool(find()); }
  const char * get_service_name() const { return name.c_str(); }
  template <typename D> bool wait_for_service(const D & d)
  {
    auto end = std::chrono::steady_clock::now() + d;
    do { if (find()) return true; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } while (std::chrono::steady_clock::now() < end);
    return bool(find());
  }
  FutureAndRequestId async_send_request(std::shared_ptr<typename S::Request> r)
  {
    auto p = std::make_shared<std::promise<std::shared_ptr<typename S::Response>>>();
    FutureAndRequestId x{p->get_future().share(), 0};
    if (auto s = find()) { std::lock_guard<std::mutex> g(s->m); s->q.emplace_back(r, [p](auto res) { p->set_value(res); }); }
    return x;
  }
};

class Node;
namespace detail
{
template <typename N> auto & deref(N & n) { if constexpr (std::is_pointer_v<std::decay_t<N>>) return *n; else return n; }
template <typename N> auto & deref(std::shared_ptr<N> & n) { return *n; }
template <typename N> auto & deref(const std::shared_ptr<N> & n) { return *n; }
}  // namespace detail

class Node : public std::enable_shared_from_this<Node>
{
protected:
  std::string name_, ns_;
  NodeOptions options_;
  node_interfaces::NodeBaseInterface::SharedPtr base_ = std::make_shared<node_interfaces::NodeBaseInterface>();
  node_interfaces::NodeParametersInterface::SharedPtr params_ = std::make_shared<node_interfaces::NodeParametersInterface>();
  node_interfaces::NodeTimersInterface::SharedPtr timers_ = std::make_shared<node_interfaces::NodeTimersInterface>();
  node_interfaces::NodeTopicsInterface::SharedPtr topics_ = std::make_shared<node_interfaces::NodeTopicsInterface>();
  Clock::SharedPtr clock_ = std::make_shared<Clock>(RCL_ROS_TIME);
  std::string resolve(const std::string & t) const
  {
    if (!t.empty() && t[0] == '/') return t;
    std::string base = ns_.empty() || ns_ == "/" ? "" : Bus::norm(ns_);
    if (t.size() > 1 && t[0] == '~') return base + "/" + name_ + t.substr(1);
    return base + "/" + t;
  }
public:
  using SharedPtr = std::shared_ptr<Node>;
  using ConstSharedPtr = std::shared_ptr<const Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions()) : Node(name, "", o) {}
  Node(const std::string & name, const std::string & ns, const NodeOptions & o = NodeOptions()) : name_(name), ns_(ns), options_(o)
  {
    base_->name = name;
    timers_->base = topics_->base = base_;
    for (auto & [k, v] : vshim::parameter_overrides()) if (auto p = std::any_cast<ParameterValue>(&v)) params_->overrides[k] = *p;
    for (auto & p : o.overrides) params_->overrides[p.get_name()] = p.get_parameter_value();
    if (o.auto_declare) params_->values = params_->overrides;
  }
  virtual ~Node() = default;
  const char * get_name() const { return name_.c_str(); }
  const char * get_namespace() const { return ns_.c_str(); }
  std::string get_fully_qualified_name() const { return resolve(name_); }
  Logger get_logger() const { return Logger(name_); }
  Clock::SharedPtr get_clock() const { return clock_; }
  Time now() const { return clock_->now(); }
  auto get_node_base_interface() const { return base_; }
  auto get_node_parameters_interface() const { return params_; }
  auto get_node_timers_interface() const { return timers_; }
  auto get_node_topics_interface() const { return topics_; }
  const NodeOptions & get_node_options() const { return options_; }
  bool has_parameter(const std::string & n) const { return params_->has_parameter(n); }
  ParameterValue declare_parameter(const std::string & n, const ParameterValue & v) { return params_->declare_parameter(n, v); }
  template <typename T> auto declare_parameter(const std::string & n, const T & v) { return params_->declare_parameter(n, ParameterValue(v)).template get<T>(); }
  std::string declare_parameter(const std::string & n, const char * v) { return params_->declare_parameter(n, ParameterValue(v)).get<std::string>(); }
  Parameter get_parameter(const std::string & n) const { return params_->get_parameter(n); }
  template <typename T> bool get_parameter(const std::string & n, T & v) const { if (!params_->has_parameter(n)) return false; v = params_->get_parameter(n).template get_value<T>(); return true; }
  void set_parameter(const Parameter & p) { params_->set(p.get_name(), p.get_parameter_value()); }

  template <typename M, typename A = std::allocator<void>> std::shared_ptr<Publisher<M>> create_publisher(const std::string & t, const QoS & q, const PublisherOptionsWithAllocator<A> & = {})
  {
    auto p = std::make_shared<Publisher<M>>();
    p->topic = resolve(t);
    p->transient = q.transient;
    return p;
  }
  template <typename M, typename A = std::allocator<void>> std::shared_ptr<Publisher<M>> create_publisher(const std::string & t, const QoS & q, const PublisherOptions &) { return this->template create_publisher<M>(t, q); }
  template <typename M, typename F> std::shared_ptr<Subscription<M>> create_subscription(const std::string & t, const QoS & q, F && f, const SubscriptionOptions & = {})
  {
    auto s = std::make_shared<Subscription<M>>();
    s->topic = resolve(t);
    s->depth = q.depth;
    if constexpr (std::is_invocable_v<F, const M &>) s->f = [f](std::shared_ptr<const M> p) mutable { f(*p); };
    else if constexpr (std::is_invocable_v<F, std::shared_ptr<const M>>) s->f = [f](std::shared_ptr<const M> p) mutable { f(p); };
    else if constexpr (std::is_invocable_v<F, std::shared_ptr<M>>) s->f = [f](std::shared_ptr<const M> p) mutable { f(std::make_shared<M>(*p)); };
    else s->f = [f](std::shared_ptr<const M> p) mutable { f(std::make_unique<M>(*p)); };
    { std::lock_guard<std::recursive_mutex> g(base_->m); base_->subscriptions.push_back(s); }
    auto & b = Bus::get();
    std::lock_guard<std::recursive_mutex> g(b.m);
    b.subs.emplace(s->topic, s);
    if (q.transient) if (auto i = b.last.find(s->topic); i != b.last.end()) s->offer(i->second.first, i->second.second);
    return s;
  }
  template <typename S, typename F, typename... Ts> std::shared_ptr<Service<S>> create_service(const std::string & n, F && f, Ts &&...)
  {
    auto s = std::make_shared<Service<S>>();
    s->name = resolve(n);
    s->f = [f](auto a, auto b) mutable { f(a, b); };
    { std::lock_guard<std::recursive_mutex> g(base_->m); base_->services.push_back(s); }
    auto & b = Bus::get();
    std::lock_guard<std::recursive_mutex> g(b.m);
    b.services[s->name] = s;
    return s;
  }
  template <typename S, typename... Ts> std::shared_ptr<Client<S>> create_client(const std::string & n, Ts &&...)
  {
    auto c = std::make_shared<Client<S>>();
    c->name = resolve(n);
    return c;
  }
  template <typename R, typename P, typename F> TimerBase::SharedPtr create_wall_timer(const std::chrono::duration<R, P> & d, F && f)
  {
    auto t = std::make_shared<TimerBase>(std::chrono::duration_cast<std::chrono::nanoseconds>(d), std::function<void()>(std::forward<F>(f)));
    timers_->add_timer(t);
    return t;
  }
};

namespace node_interfaces
{
template <typename N> NodeParametersInterface::SharedPtr get_node_parameters_interface(N && n) { return ::rclcpp::detail::deref(n).get_node_parameters_interface(); }
template <typename N> NodeBaseInterface::SharedPtr get_node_base_interface(N && n) { return ::rclcpp::detail::deref(n).get_node_base_interface(); }
template <typename N> NodeTimersInterface::SharedPtr get_node_timers_interface(N && n) { return ::rclcpp::detail::deref(n).get_node_timers_interface(); }
template <typename N> NodeTopicsInterface::SharedPtr get_node_topics_interface(N && n) { return ::rclcpp::detail::deref(n).get_node_topics_interface(); }
}  // namespace node_interfaces

template <typename M, typename A = std::allocator<void>, typename P = Publisher<M, A>, typename N, typename O = PublisherOptionsWithAllocator<A>>
std::shared_ptr<Publisher<M>> create_publisher(N && n, const std::string & t, const QoS & q, const O & = O())
{
  if constexpr (std::is_same_v<std::decay_t<N>, node_interfaces::NodeTopicsInterface::SharedPtr>) { auto p = std::make_shared<Publisher<M>>(); p->topic = Bus::norm(t); p->transient = q.transient; return p; }
  else return detail::deref(n).template create_publisher<M>(t, q);
}
template <typename M, typename N, typename F, typename... Ts>
std::shared_ptr<Subscription<M>> create_subscription(N && n, const std::string & t, const QoS & q, F && f, Ts &&...) { return detail::deref(n).template create_subscription<M>(t, q, std::forward<F>(f)); }

template <typename F> TimerBase::SharedPtr create_timer(node_interfaces::NodeBaseInterface::SharedPtr, node_interfaces::NodeTimersInterface::SharedPtr t, Clock::SharedPtr, const Duration & d, F && f)
{
  auto x = std::make_shared<TimerBase>(std::chrono::nanoseconds(d.nanoseconds()), std::function<void()>(std::forward<F>(f)));
  t->add_timer(x);
  return x;
}
template <typename N, typename F> TimerBase::SharedPtr create_timer(N n, Clock::SharedPtr, const Duration & d, F && f)
{
  auto x = std::make_shared<TimerBase>(std::chrono::nanoseconds(d.nanoseconds()), std::function<void()>(std::forward<F>(f)));
  detail::deref(n).get_node_timers_interface()->add_timer(x);
  return x;
}
template <typename R, typename P, typename F>
TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> d, F && f, void *, node_interfaces::NodeBaseInterface *, node_interfaces::NodeTimersInterface * t)
{
  auto x = std::make_shared<TimerBase>(std::chrono::duration_cast<std::chrono::nanoseconds>(d), std::function<void()>(std::forward<F>(f)));
  t->add_timer(x);
  return x;
}

namespace executors
{
class SingleThreadedExecutor
{
  std::mutex m;
  std::vector<node_interfaces::NodeBaseInterface::SharedPtr> nodes;
  std::atomic<bool> stop{false};
  auto copy() { std::lock_guard<std::mutex> g(m); return nodes; }
public:
  void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true) { std::lock_guard<std::mutex> g(m); nodes.push_back(n); }
  template <typename N> void add_node(std::shared_ptr<N> n) { add_node(n->get_node_base_interface()); }
  void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true) { std::lock_guard<std::mutex> g(m); nodes.erase(std::remove(nodes.begin(), nodes.end(), n), nodes.end()); }
  template <typename N> void remove_node(std::shared_ptr<N> n) { remove_node(n->get_node_base_interface()); }
  void spin_some(std::chrono::nanoseconds = std::chrono::nanoseconds(0)) { for (auto & n : copy()) n->spin_some(); }
  void spin_once(std::chrono::nanoseconds = std::chrono::nanoseconds(-1))
  {
    bool any = false;
    for (auto & n : copy()) any |= n->spin_some();
    if (!any) std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  void cancel() { stop = true; }
  void spin() { stop = false; while (ok() && !stop) spin_once(); }
};
using MultiThreadedExecutor = SingleThreadedExecutor;
}  // namespace executors
using Executor = executors::SingleThreadedExecutor;
template <typename N> void spin(std::shared_ptr<N> n) { executors::SingleThreadedExecutor e; e.add_node(n); e.spin(); }
inline void spin(node_interfaces::NodeBaseInterface::SharedPtr n) { executors::SingleThreadedExecutor e; e.add_node(n); e.spin(); }
template <typename N> void spin_some(std::shared_ptr<N> n) { n->get_node_base_interface()->spin_some(); }
inline void spin_some(node_interfaces::NodeBaseInterface::SharedPtr n) { n->spin_some(); }

template <typename C = std::chrono::steady_clock>
class GenericRate
{
  std::chrono::nanoseconds p;
public:
  explicit GenericRate(double hz) : p(std::int64_t(1e9 / hz)) {}
  explicit GenericRate(std::chrono::nanoseconds n) : p(n) {}
  bool sleep() { std::this_thread::sleep_for(p); return true; }
};
using WallRate = GenericRate<std::chrono::steady_clock>;
using Rate = GenericRate<std::chrono::system_clock>;
inline bool sleep_for(std::chrono::nanoseconds d) { std::this_thread::sleep_for(d); return ok(); }
}  // namespace rclcpp
#endif
