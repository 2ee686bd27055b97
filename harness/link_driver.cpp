// Connects the client's and the server's end of the connection between
// keymapper and keymapperd and lets the bytes arrive in pieces.
// Observations: [1,ok] connection attempt, [2,ok] send, [3,ok] end of a read,
// [4,...] to [9,...] and [30,...] delivered messages, [20,...] to [29,...]
// parts of a delivered configuration.
#include "common.h"
#include "walker.h"
#include "net.h"
#include "client/ServerPort.h"
#include "server/ClientPort.h"
#include "common/parse_regex.h"
#include <thread>

namespace {

void add(std::vector<int>& o, const std::string& s) {
  for (auto c : s)
    o.push_back(static_cast<unsigned char>(c));
}

void add(std::vector<int>& o, const KeySequence& s) {
  for (const auto& e : s) {
    o.push_back(static_cast<int>(*e.key));
    o.push_back(from_state(e.state));
    o.push_back(static_cast<int>(e.value));
  }
}

std::string to_bytes(const json& j) {
  auto s = std::string();
  for (const auto& c : j)
    s.push_back(static_cast<char>(c.get<int>()));
  return s;
}

Filter to_byte_filter(const json& j) {
  auto f = Filter();
  f.string = to_bytes(j["s"]);
  f.invert = j["inv"].get<bool>();
  if (is_regex(f.string))
    f.regex = parse_regex(f.string);
  return f;
}

Config to_config(const json& j) {
  auto config = Config();
  for (const auto& g : j["grab"]) {
    auto& filter = config.grab_device_filters.emplace_back();
    static_cast<Filter&>(filter) = to_byte_filter(g);
    filter.by_id = g["id"].get<bool>();
  }
  for (const auto& c : j["ctx"]) {
    auto& context = config.contexts.emplace_back();
    context.system_filter_matched = true;
    context.begin_stage = c["begin"].get<bool>();
    for (const auto& i : c["in"])
      context.inputs.push_back({ to_sequence(i["i"]), i["o"].get<int>() });
    for (const auto& o : c["out"])
      context.outputs.push_back(to_sequence(o));
    for (const auto& o : c["cmd"])
      context.command_outputs.push_back({ to_sequence(o["o"]), o["x"].get<int>() });
    context.device_filter = to_byte_filter(c["dn"]);
    context.device_id_filter = to_byte_filter(c["di"]);
    context.modifier_filter = to_sequence(c["mf"]);
    context.invert_modifier_filter = c["inv"].get<bool>();
    context.fallthrough = c["ft"].get<bool>();
  }
  for (const auto& d : j["dir"])
    config.server_directives.push_back(to_bytes(d));
  return config;
}

class Server : public IClientPort::MessageHandler {
public:
  Observed observed;
  std::vector<std::string> probes;

  void on_configuration_message(MultiStagePtr stage) override {
    auto n = 0;
    for (const auto& s : stage->stages()) {
      ++n;
      for (const auto& c : s->contexts()) {
        observed.push_back({ 21, n, c.invert_modifier_filter, c.fallthrough });
        for (const auto& i : c.inputs)
          add(observed.emplace_back(std::vector<int>{ 22, i.output_index }), i.input);
        for (const auto& o : c.outputs)
          add(observed.emplace_back(std::vector<int>{ 23 }), o);
        // looked up by number
        auto commands = c.command_outputs;
        std::stable_sort(commands.begin(), commands.end(),
          [](const auto& a, const auto& b) { return a.index < b.index; });
        for (const auto& o : commands)
          add(observed.emplace_back(std::vector<int>{ 24, o.index }), o.output);
        add_filter(25, c.device_filter);
        add_filter(26, c.device_id_filter);
        add(observed.emplace_back(std::vector<int>{ 27 }), c.modifier_filter);
      }
    }
    observed.push_back({ 29, static_cast<int>(stage->context_count()) });
  }
  void on_grab_device_filters_message(std::vector<GrabDeviceFilter> filters) override {
    for (const auto& f : filters) {
      add_filter(20, f);
      observed.back().push_back(f.by_id);
    }
  }
  void on_directives_message(const std::vector<std::string>& directives) override {
    for (const auto& d : directives)
      add(observed.emplace_back(std::vector<int>{ 28 }), d);
    observed.push_back({ 30 });
  }
  void on_active_contexts_message(const std::vector<int>& indices) override {
    observed.push_back({ 4 });
    observed.back().insert(observed.back().end(), indices.begin(), indices.end());
  }
  void on_set_virtual_key_state_message(Key key, KeyState state) override {
    observed.push_back({ 5, static_cast<int>(*key), from_state(state) });
  }
  void on_validate_state_message() override { observed.push_back({ 6 }); }
  void on_request_next_key_info_message() override { observed.push_back({ 7 }); }
  void on_inject_input_message(const KeySequence& sequence) override {
    add(observed.emplace_back(std::vector<int>{ 8 }), sequence);
  }
  void on_inject_output_message(const KeySequence& sequence) override {
    add(observed.emplace_back(std::vector<int>{ 9 }), sequence);
  }

private:
  void add_filter(int type, const Filter& filter) {
    auto& o = observed.emplace_back(std::vector<int>{ type, filter.invert });
    for (const auto& p : probes)
      o.push_back(filter.matches(p, false));
    o.push_back(-1);
    add(o, filter.string);
    o.push_back(-1);
  }
};

class Client : public ServerPort::MessageHandler {
public:
  Observed observed;

  void on_execute_action_message(int index) override { observed.push_back({ 4, index }); }
  void on_virtual_key_state_message(Key key, KeyState state) override {
    observed.push_back({ 5, static_cast<int>(*key), from_state(state) });
  }
  void on_next_key_info_message(Key key, DeviceDesc device) override {
    auto& o = observed.emplace_back(std::vector<int>{ 6, static_cast<int>(*key) });
    add(o, device.name);
    o.push_back(-1);
    add(o, device.id);
  }
};

} // namespace

struct System {
  using Event = json;
  static Event prepare(const json& ev) { return ev; }

  // stream in one direction
  struct Stream {
    std::shared_ptr<net::Pipe> pipe;
    std::vector<size_t> ends;   // position after each message
    int units{ };               // how much has arrived
    int bad{ -1 };              // index of the malformed message
    int delivered{ };
  };

  const json& scenario;
  const int units_per_message;
  std::unique_ptr<ServerPort> client_port;
  std::unique_ptr<ClientPort> server_port;
  Client client;
  Server server;
  Stream streams[2];

  explicit System(const json& scenario)
    : scenario(scenario),
      units_per_message(scenario["units"].get<int>()) {
    net::state().ends.clear();
    net::state().instance++;
    net::state().calls = 0;
    client_port = std::make_unique<ServerPort>();
    server_port = std::make_unique<ClientPort>();
    if (!server_port->listen())
      throw std::runtime_error("listen");
    for (const auto& p : scenario["probes"])
      server.probes.push_back(to_bytes(p));
  }

  // byte position of a number of units
  size_t position(const Stream& s, int units) {
    const auto message = static_cast<size_t>(units / units_per_message);
    const auto begin = (message ? s.ends[message - 1] : 0);
    const auto part = units % units_per_message;
    if (!part)
      return begin;
    const auto size = s.ends[message] - begin;
    // all bytes separately
    if (units_per_message >= static_cast<int>(size))
      return begin + std::min(size - 1, static_cast<size_t>(part));
    // beginning and end byte by byte, the rest in proportion
    const size_t first[] = { 0, 1, 3, 4, 5 };
    auto offset = (part < 5 ? first[part] : size * static_cast<size_t>(part) / static_cast<size_t>(units_per_message));
    if (part == units_per_message - 1)
      offset = size - 1;
    return begin + std::max(size_t{ 1 }, std::min(size - 1, offset));
  }

  bool connect() {
    auto ok = false;
    auto thread = std::thread([&]() { ok = client_port->connect(); });
    const auto accepted = server_port->accept();
    thread.join();
    if (!ok || !accepted)
      return false;
    auto [up, down] = net::control(client_port->socket(), server_port->socket());
    streams[0] = Stream{ up };
    streams[1] = Stream{ down };
    return true;
  }

  // somebody else connects and does not introduce itself properly
  bool connect_wrongly(const std::string& kind) {
    auto fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
    auto addr = sockaddr_un{ };
    addr.sun_family = AF_UNIX;
    std::strcpy(addr.sun_path + 1, "keymapper");
    if (::connect(fd, reinterpret_cast<sockaddr*>(&addr), sizeof(addr)))
      throw std::runtime_error("connect");
    if (kind == "other") {
      const auto garbage = std::string(64, 'Z');
      if (::send(fd, garbage.data(), garbage.size(), 0) < 0)
        throw std::runtime_error("send");
      const auto ok = server_port->accept();
      ::close(fd);
      return ok;
    }
    if (kind == "short")
      if (::send(fd, "Z", 1, 0) < 0)
        throw std::runtime_error("send");
    ::close(fd);
    return server_port->accept();
  }

  bool send(int d, const json& m) {
    const auto& type = m[0].get_ref<const std::string&>();
    if (d == 1) {
      auto& p = *client_port;
      if (type == "cfg") return p.send_config(to_config(m[1]));
      if (type == "ctx") return p.send_active_contexts(m[1].get<std::vector<int>>());
      if (type == "vk") return p.send_set_virtual_key_state(static_cast<Key>(m[1].get<int>()), to_state(m[2].get<int>()));
      if (type == "val") return p.send_validate_state();
      if (type == "nki") return p.send_request_next_key_info();
      if (type == "ii") return p.send_inject_input(to_sequence(m[1]));
      if (type == "io") return p.send_inject_output(to_sequence(m[1]));
    }
    else {
      auto& p = *server_port;
      if (type == "act") return p.send_triggered_action(m[1].get<int>());
      if (type == "vks") return p.send_virtual_key_state(static_cast<Key>(m[1].get<int>()), to_state(m[2].get<int>()));
      if (type == "info") return p.send_next_key_info(static_cast<Key>(m[1].get<int>()),
        DeviceDesc{ to_bytes(m[2]), to_bytes(m[3]) });
    }
    throw std::runtime_error("message");
  }

  // a message with more content than expected
  bool send_bad(int d, int kind) {
    // a connection of its own on the same stream
    auto connection = Connection(d == 1 ? client_port->socket() : server_port->socket());
    const auto ok = connection.send_message([&](Serializer& s) {
      s.write(d == 1 ? MessageType::set_virtual_key_state : MessageType::virtual_key_state);
      s.write(Key::A);
      s.write(KeyState::Down);
      for (auto i = 0; i < kind; ++i)
        s.write(uint8_t(i * 37));
    });
    new (&connection) Connection();  // does not own the socket
    return ok;
  }

  Observed read(int d) {
    auto& s = streams[d - 1];
    auto& observed = (d == 1 ? server.observed : client.observed);
    auto ok = true;
    for (auto i = 0; i < 1000000; ++i) {
      ok = (d == 1 ?
        server_port->read_messages(server, Duration::zero()) :
        client_port->read_messages(client, Duration::zero()));
      if (!ok || !s.pipe->available())
        break;
    }
    auto result = std::exchange(observed, { });
    // what is made of the malformed message itself does not matter
    for (auto it = result.begin(); it != result.end(); ) {
      const auto last_part = ((*it)[0] < 20 || (*it)[0] == 30);
      if (s.delivered == s.bad) {
        it = result.erase(it);
        s.bad = -2;
        continue;
      }
      s.delivered += last_part;
      ++it;
    }
    // an ended connection is recognized by the next read at the latest
    if (ok && s.pipe->ended() && s.pipe->taken == s.pipe->end())
      ok = (d == 1 ?
        server_port->read_messages(server, Duration::zero()) :
        client_port->read_messages(client, Duration::zero()));
    result.push_back({ 3, ok });
    return result;
  }

  Observed apply(const Event& ev) {
    const auto& kind = ev[0].get_ref<const std::string&>();
    if (kind == "conn")
      return { { 1, connect() } };
    if (kind == "hs")
      return { { 1, connect_wrongly(ev[1]) } };
    if (kind == "disc") {
      client_port->disconnect();
      server_port->disconnect();
      return { };
    }
    const auto d = ev[1].get<int>();
    auto& s = streams[d - 1];
    if (kind == "send" || kind == "bad") {
      if (kind == "bad")
        s.bad = static_cast<int>(s.ends.size());
      const auto ok = (kind == "bad" ? send_bad(d, ev[2]) : send(d, scenario["msgs"][ev[2].get<size_t>() - 1]));
      if (ok)
        s.ends.push_back(s.pipe->data.size());
      return { { 2, ok } };
    }
    if (kind == "arr") {
      s.units += ev[2].get<int>();
      s.pipe->arrived = position(s, s.units);
      return { };
    }
    if (kind == "cut" || kind == "close") {
      if (kind == "cut")
        s.pipe->limit = position(s, s.units);
      if (d == 1)
        client_port->disconnect();
      else
        server_port->disconnect();
      return { };
    }
    if (kind == "read")
      return read(d);
    throw std::runtime_error("event");
  }
};

int main(int argc, char* argv[]) {
  return driver_main<System>(argc, argv);
}
