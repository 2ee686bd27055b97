// Replays histories into the server's state machine: a fake client port
// records what is reported to the client, the virtual output device records
// what is sent, and the clock is under control of the driver.
// Observations: [0,key,state,value] sent key, [1,n] action, [2,key,state]
// virtual key report, [3,key,device name...] key info, [4] exit requested,
// [5] connection given up, [9, flush in ms, timeout in ms] at the end.
#include "common.h"
#include "walker.h"
#include "server/ServerState.h"
#include "runtime/Timeout.h"
#include <ctime>

static long long g_now_ns = 1'000'000'000;

extern "C" int clock_gettime(clockid_t, timespec* ts) {
  ts->tv_sec = g_now_ns / 1'000'000'000;
  ts->tv_nsec = g_now_ns % 1'000'000'000;
  return 0;
}

class FakeClient : public IClientPort {
public:
  Observed* observed{ };
  std::function<void(MessageHandler&)> message;

  Socket socket() const override { return 0; }
  Socket listen_socket() const override { return 0; }
  bool version_mismatch() const override { return false; }
  bool listen() override { return false; }
  bool accept() override { return false; }
  void disconnect() override { }
  bool send_triggered_action(int action) override {
    observed->push_back({ 1, action });
    return true;
  }
  bool send_virtual_key_state(Key key, KeyState state) override {
    observed->push_back({ 2, static_cast<int>(*key), from_state(state) });
    return true;
  }
  bool send_next_key_info(Key key, const DeviceDesc& desc) override {
    auto o = std::vector<int>{ 3, static_cast<int>(*key) };
    for (auto c : desc.name)
      o.push_back(c - 'a');
    o.push_back(-1);
    for (auto c : desc.id)
      o.push_back(c - 'a');
    observed->push_back(std::move(o));
    return true;
  }
  bool read_messages(MessageHandler& handler, std::optional<Duration>) override {
    if (auto m = std::exchange(message, nullptr))
      m(handler);
    return true;
  }
};

class Server : public ServerState {
public:
  Observed observed;
  bool fail{ };
  std::vector<int> keys_down;

  Server(std::unique_ptr<FakeClient> client, FakeClient* ptr)
    : ServerState(std::move(client)), m_client(*ptr) {
    m_client.observed = &observed;
  }

  void message(std::function<void(ClientPort::MessageHandler&)> send) {
    m_client.message = std::move(send);
    read_client_messages();
  }

private:
  bool on_send_key(const KeyEvent& event) override {
    if (fail)
      return false;
    observed.push_back({ 0, static_cast<int>(*event.key), from_state(event.state), static_cast<int>(event.value) });
    return true;
  }
  void on_exit_requested() override { observed.push_back({ 4 }); }
  void on_grab_device_filters_message(std::vector<GrabDeviceFilter>) override { }
  bool on_validate_key_is_down(Key key) override {
    return std::count(keys_down.begin(), keys_down.end(), static_cast<int>(*key)) > 0;
  }

  FakeClient& m_client;
};

struct System {
  using Event = json;
  static Event prepare(const json& ev) { return ev; }

  std::unique_ptr<Server> server;
  const json& configs;
  bool configured{ };

  explicit System(const json& scenario) : configs(scenario["cfgs"]) {
    auto client = std::make_unique<FakeClient>();
    auto ptr = client.get();
    server = std::make_unique<Server>(std::move(client), ptr);
    server->observed.clear();
  }

  // end of an iteration of the main loop
  void loop() {
    const auto now = Clock::now();
    if (server->timeout_start_at() &&
        now >= server->timeout_start_at().value() + server->timeout()) {
      const auto timeout = make_input_timeout_event(server->timeout());
      server->cancel_timeout();
      server->translate_input(timeout, Stage::any_device_index);
    }
    if (!server->flush_scheduled_at() || now > server->flush_scheduled_at())
      if (!server->flush_send_buffer()) {
        server->observed.push_back({ 5 });
        server->reset_configuration();
      }
  }

  Observed apply(const Event& ev) {
    auto& s = *server;
    const auto& kind = ev[0].get_ref<const std::string&>();
    g_now_ns += 10;  // time always passes
    // without configuration no device is grabbed
    if (!configured && kind != "cfg" && kind != "d" && kind != "fail") {
    }
    else if (kind == "k") {
      s.translate_input(KeyEvent(static_cast<Key>(ev[1].get<int>()), to_state(ev[2].get<int>()),
        static_cast<KeyEvent::value_t>(ev[3].get<int>())), ev[4].get<int>());
      loop();
    }
    else if (kind == "t") {
      g_now_ns += ev[1].get<long long>() * 1'000'000;
      loop();
    }
    else if (kind == "cfg") {
      auto stage = std::make_shared<MultiStagePtr>(to_multi_stage(configs[ev[1].get<int>() - 1]));
      s.message([stage](ClientPort::MessageHandler& h) { h.on_configuration_message(std::move(*stage)); });
      configured = true;
    }
    else if (kind == "disc") {
      s.reset_configuration();
      configured = false;
    }
    else if (kind == "c")
      s.message([&](ClientPort::MessageHandler& h) { h.on_active_contexts_message(ev[1].get<std::vector<int>>()); });
    else if (kind == "vk")
      s.message([&](ClientPort::MessageHandler& h) {
        h.on_set_virtual_key_state_message(static_cast<Key>(ev[1].get<int>()), to_state(ev[2].get<int>())); });
    else if (kind == "v") {
      s.keys_down = ev[1].get<std::vector<int>>();
      s.message([&](ClientPort::MessageHandler& h) { h.on_validate_state_message(); });
    }
    else if (kind == "nki")
      s.message([&](ClientPort::MessageHandler& h) { h.on_request_next_key_info_message(); });
    else if (kind == "ii")
      s.message([&](ClientPort::MessageHandler& h) { h.on_inject_input_message(to_sequence(ev[1])); });
    else if (kind == "io")
      s.message([&](ClientPort::MessageHandler& h) { h.on_inject_output_message(to_sequence(ev[1])); });
    else if (kind == "d")
      s.set_device_descs(to_device_descs(ev[1]));
    else if (kind == "fail")
      s.fail = ev[1].get<int>() != 0;
    else
      throw std::runtime_error("unknown event");

    for (const auto& o : s.observed)
      if (o[0] == 4 || o[0] == 5)
        configured = false;

    // what is sent to the system and to the client is independent
    std::stable_partition(s.observed.begin(), s.observed.end(),
      [](const auto& o) { return o[0] == 0; });

    const auto in_ms = [](const auto& d) {
      return static_cast<int>(std::lround(std::chrono::duration<double>(d).count() * 1000));
    };
    const auto now = Clock::now();
    s.observed.push_back({ 9,
      s.flush_scheduled_at() ? in_ms(*s.flush_scheduled_at() - now) : -1,
      s.timeout_start_at() ? in_ms(*s.timeout_start_at() + s.timeout() - now) : -1 });
    return std::exchange(s.observed, { });
  }
};

int main(int argc, char* argv[]) {
  return driver_main<System>(argc, argv);
}
