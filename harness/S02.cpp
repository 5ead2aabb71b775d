// The simulators' request/response protocol over a real loopback socket.
#include <rclcpp/rclcpp.hpp>
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/zmq_multi_client.hpp>
#include <simulation_interface/zmq_multi_server.hpp>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "protos.hpp"
namespace api = simulation_api_schema;

namespace
{
int free_port()
{
  const int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_ANY);
  socklen_t n = sizeof a;
  if (::bind(fd, reinterpret_cast<sockaddr *>(&a), n) != 0 || ::getsockname(fd, reinterpret_cast<sockaddr *>(&a), &n) != 0) std::abort();
  ::close(fd);
  return ntohs(a.sin_port);
}

// what the server's handlers saw and shall answer
struct Desk
{
  std::vector<std::pair<std::string, std::string>> calls;
  std::string answer;
} desk;

std::atomic<long> waiting_since{0};
long now_s() { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

template <class Request, class Response>
auto handler(const char * name)
{
  return [name](const Request & r) {
    desk.calls.emplace_back(name, r.SerializeAsString());
    Response a;
    if (!a.ParseFromString(desk.answer)) std::abort();
    return a;
  };
}
#define H(NAME) handler<api::NAME##Request, api::NAME##Response>(#NAME)

struct World
{
  int port = 0;
  std::unique_ptr<zeromq::MultiServer> server;
  std::thread watchdog;
  World()
  {
    if (!rclcpp::ok()) rclcpp::init(0, nullptr);
    for (int k = 0; !server; ++k) {
      port = free_port();
      try {
        server = std::make_unique<zeromq::MultiServer>(
          simulation_interface::TransportProtocol::TCP, simulation_interface::HostName::ANY, static_cast<unsigned>(port), H(Initialize), H(UpdateFrame), H(SpawnVehicleEntity),
          H(SpawnPedestrianEntity), H(SpawnMiscObjectEntity), H(DespawnEntity), H(UpdateEntityStatus), H(AttachImuSensor), H(AttachLidarSensor), H(AttachDetectionSensor),
          H(AttachOccupancyGridSensor), H(UpdateTrafficLights), H(AttachPseudoTrafficLightDetector), H(UpdateStepTime));
      } catch (const zmq::error_t &) {
        if (k > 20) throw;
      }
    }
    watchdog = std::thread([] {
      while (true) {
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        const long t = waiting_since;
        if (t && now_s() - t > 15) {
          std::cerr << "a request got no response within 15 s" << std::endl;
          std::abort();
        }
      }
    });
    watchdog.detach();
  }
};
World & world()
{
  static World * w = new World;  // lives as long as the process
  return *w;
}

template <class Request, class Response>
void exchange(vf::Src & s, vf::Case & c, zeromq::MultiClient & client, const char * name, bool open)
{
  Request request;
  fill(request, s);
  Response answer;
  fill(answer, s);
  desk.calls.clear();
  desk.answer = answer.SerializeAsString();
  c.log << " " << name << (open ? "" : " (closed)") << "{" << request.ShortDebugString().substr(0, 200) << "}";
  waiting_since = now_s();
  const Response got = client.call(request);
  waiting_since = 0;
  if (!open) {
    c.require(desk.calls.empty(), "a request went out over a closed connection");
    const auto d = msgs::difference(flat(got), flat(Response()));
    c.require(d.empty(), "the response over a closed connection is not empty: ", d);
    return;
  }
  c.require(desk.calls.size() == 1, "one ", name, " request caused ", desk.calls.size(), " calls of handlers");
  c.require(desk.calls[0].first == name, "a ", name, " request went to the handler of ", desk.calls[0].first);
  Request seen;
  c.require(seen.ParseFromString(desk.calls[0].second), "the handler's request");
  auto d = msgs::difference(flat(request), flat(seen));
  c.require(d.empty(), "the handler of ", name, " got another request: ", d);
  d = msgs::difference(flat(answer), flat(got));
  c.require(d.empty(), "the caller of ", name, " got another response: ", d);
}
}  // namespace

VF_PROP("requests reach their handlers and responses their callers", 1600, 40000)
{
  auto & w = world();
  zeromq::MultiClient a(simulation_interface::TransportProtocol::TCP, "localhost", static_cast<unsigned>(w.port));
  std::unique_ptr<zeromq::MultiClient> b;
  bool open = true;
  const std::size_t n = s.length(1, 20);
  for (std::size_t i = 0; i < n; ++i) {
    if (open && s.chance(4)) {
      a.closeConnection();
      if (s.boolean()) a.closeConnection();
      open = false;
    }
    bool first = true;
    if (s.chance(25)) {
      if (!b) b = std::make_unique<zeromq::MultiClient>(simulation_interface::TransportProtocol::TCP, "localhost", static_cast<unsigned>(w.port));
      first = false;
    }
    auto & client = first ? a : *b;
    const bool is_open = first ? open : true;
#define X(NAME) exchange<api::NAME##Request, api::NAME##Response>(s, c, client, #NAME, is_open); break;
    switch (s.index(14)) {
      case 0: X(Initialize)
      case 1: X(UpdateFrame)
      case 2: X(SpawnVehicleEntity)
      case 3: X(SpawnPedestrianEntity)
      case 4: X(SpawnMiscObjectEntity)
      case 5: X(DespawnEntity)
      case 6: X(UpdateEntityStatus)
      case 7: X(AttachImuSensor)
      case 8: X(AttachLidarSensor)
      case 9: X(AttachDetectionSensor)
      case 10: X(AttachOccupancyGridSensor)
      case 11: X(UpdateTrafficLights)
      case 12: X(AttachPseudoTrafficLightDetector)
      default: X(UpdateStepTime)
    }
  }
  if (n > 1) c.nontrivial();
}
