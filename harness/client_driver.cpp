// Runs the complete client program in a process of its own: whenever it waits
// for the server, the next event happens. The real port of the server plays
// the server, the real ports of keymapperctl request things, the files are
// real ones in a scratch directory (DRIVER_DIR), the focused window and the
// tray icon are fakes. The programs which are executed by the client are the
// scripts in a directory of their own, they only record their arguments.
// Observations: [20,...] configuration received by the server (its markers),
// [21,...] markers of the contexts which are active on the server,
// [22,key,state] request to set a virtual key, [23] request of a key info,
// [24,...] injected input, [25,...] injected output, [26] validate,
// [30,c,state] answer to connection c, [31,c,...] key info for it, [32,c] it
// is closed, [33,c] connecting failed, [40,n] executed command,
// [41,...] key info shown, [42] connection to the server lost,
// [70] the program has ended.
#define main client_main
#include "client/unix/main.cpp"
#undef main
#include "common.h"
#include "walker.h"
#include "net.h"
#include "client/ClientState.h"
#include "client/unix/FocusedWindowImpl.h"
#include "client/unix/StringTyperImpl.h"
#include "server/ClientPort.h"
#define ClientPort ControlClientPort
#include "control/ClientPort.cpp"
#undef ClientPort
#include <atomic>
#include <ctime>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <set>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <thread>

static std::atomic<long long> g_now_ns{ 1'000'000'000 };

extern "C" int clock_gettime(clockid_t, timespec* ts) {
  ts->tv_sec = g_now_ns / 1'000'000'000;
  ts->tv_nsec = g_now_ns % 1'000'000'000;
  return 0;
}

extern "C" int clock_nanosleep(clockid_t, int, const timespec* ts, timespec*) {
  g_now_ns += ts->tv_sec * 1'000'000'000ll + ts->tv_nsec;
  return 0;
}

extern "C" int nanosleep(const timespec* ts, timespec*) {
  g_now_ns += ts->tv_sec * 1'000'000'000ll + ts->tv_nsec;
  return 0;
}

namespace {

struct Window {
  std::string window_class, title, path;
  bool operator==(const Window& b) const {
    return std::tie(window_class, title, path) == std::tie(b.window_class, b.title, b.path);
  }
};
Window g_window;

class FakeWindowSystem : public FocusedWindowSystem {
public:
  explicit FakeWindowSystem(FocusedWindowData* data) : m_data(*data) { }
  bool update() override {
    if (m_seen && *m_seen == g_window)
      return false;
    m_seen = g_window;
    m_data.window_class = g_window.window_class;
    m_data.window_title = g_window.title;
    m_data.window_path = g_window.path;
    return true;
  }

private:
  FocusedWindowData& m_data;
  std::optional<Window> m_seen;
};

std::string to_chars(const json& j) {
  auto s = std::string();
  for (const auto& c : j)
    s.push_back(static_cast<char>(c.get<int>()));
  return s;
}

// what the user chooses in the menu of the tray icon
TrayIcon::Handler* g_tray_handler;
std::vector<std::string> g_chosen;

class FakeTrayIcon : public TrayIcon::IImpl {
public:
  ~FakeTrayIcon() override { g_tray_handler = nullptr; }
  bool initialize(TrayIcon::Handler* handler, bool) override {
    g_tray_handler = handler;
    return true;
  }
  void update() override {
    for (const auto& chosen : std::exchange(g_chosen, { }))
      if (chosen == "tog") g_tray_handler->on_toggle_active();
      else if (chosen == "reload") g_tray_handler->on_reload_config();
      else if (chosen == "tinfo") g_tray_handler->on_request_next_key_info();
      else if (chosen == "exit") g_tray_handler->on_exit();
  }
};

class Server : public IClientPort::MessageHandler {
public:
  Observed observed;
  std::vector<std::vector<int>> markers;  // of the contexts
  std::vector<int> active;
  std::vector<int> actions;  // action index by number of command mapping

  void on_configuration_message(MultiStagePtr stage) override {
    markers.clear();
    active.clear();
    actions.assign(20, -1);
    auto o = std::vector<int>{ 20 };
    for (const auto& s : stage->stages())
      for (const auto& c : s->contexts()) {
        auto& m = markers.emplace_back();
        for (const auto& i : c.inputs)
          if (i.output_index >= 0) {
            const auto& output = c.outputs.at(static_cast<size_t>(i.output_index));
            if (output.empty())
              continue;
            if (is_virtual_key(output[0].key)) {
              m.push_back(static_cast<int>(*output[0].key - *Key::first_virtual));
              if (m.back() >= 100)
                o.push_back(m.back());
            }
            else if (is_action_key(output[0].key)) {
              // F1, F2...: number of the command mapping
              const auto n = static_cast<int>(*i.input[0].key - *Key::F1);
              if (n >= 0 && n < 10)
                actions[static_cast<size_t>(n)] = static_cast<int>(*output[0].key - *Key::first_action);
            }
          }
      }
    observed.push_back(o);
  }
  void on_grab_device_filters_message(std::vector<GrabDeviceFilter>) override { }
  void on_directives_message(const std::vector<std::string>&) override { }
  void on_active_contexts_message(const std::vector<int>& indices) override { active = indices; }
  void on_set_virtual_key_state_message(Key key, KeyState state) override {
    observed.push_back({ 22, static_cast<int>(*key), from_state(state) });
  }
  void on_validate_state_message() override { observed.push_back({ 26 }); }
  void on_request_next_key_info_message() override { observed.push_back({ 23 }); }
  void on_inject_input_message(const KeySequence& sequence) override { add(24, sequence); }
  void on_inject_output_message(const KeySequence& sequence) override { add(25, sequence); }

private:
  void add(int type, const KeySequence& sequence) {
    auto& o = observed.emplace_back(std::vector<int>{ type });
    for (const auto& e : sequence)
      // releasing a delay means nothing
      if (e.key != Key::timeout || e.state == KeyState::Down) {
        o.push_back(static_cast<int>(*e.key));
        o.push_back(from_state(e.state));
        o.push_back(static_cast<int>(e.value));
      }
  }
};

struct Control {
  std::unique_ptr<ControlClientPort> port;
  std::shared_ptr<net::Pipe> in, out;
  int fd{ };
  bool info{ };  // waits for a key info
  bool waited{ };  // for a virtual key
};

// the world around the client, lives in the client's process
class World {
public:
  World(const json& scenario, std::filesystem::path dir, int commands, int replies)
    : scenario(scenario), dir(std::move(dir)), m_commands(fdopen(commands, "r")), m_replies(replies),
      m_main(std::this_thread::get_id()) {
    net::state().wait = [this](int fd, long long ns) { return on_wait(fd, ns); };
    net::state().connecting = [this](int fd) { on_connecting(fd); };
    net::state().sending = [this](int fd, size_t length) { on_sending(fd, length); };
    server_port = std::make_unique<ClientPort>();
    if (!server_port->listen())
      throw std::runtime_error("listen");
  }

  // what happens before the client is started, returns the number of its file
  int before() {
    const auto ev = next();
    m_waits = 2;
    return ev[1].get<int>();
  }

  std::string filename(int f) const { return (dir / ("file" + std::to_string(f) + ".conf")).string(); }

  // the client has ended
  void end() {
    server.observed.clear();
    server.observed.push_back({ 70 });
    reply(server.observed);
  }

private:
  // the client connects to the server
  void on_connecting(int fd) {
    if (std::this_thread::get_id() != m_main)
      return;
    if (started)
      server.observed.push_back({ 42 });
    started = true;
    m_connecting_fd = fd;
    m_greeting = 0;
    server_port->disconnect();
    m_accepting = std::thread([this]() { server_port->accept(); });
  }

  // when the client is accepted the bytes are under control
  void on_sending(int fd, size_t length) {
    if (fd != m_connecting_fd || std::this_thread::get_id() != m_main)
      return;
    if (m_greeting < sizeof(size_t)) {
      m_greeting += length;
      return;
    }
    m_accepting.join();
    m_connecting_fd = -1;
    std::tie(to_server, to_client) = net::control(fd, server_port->socket());
    to_server->automatic = to_client->automatic = true;
  }

  // somebody waits
  int on_wait(int fd, long long ns) {
    if (m_inside) {
      // bytes arrive one by one
      for (auto& [c, control] : controls)
        if (control.fd == fd && control.in && control.in->arrived < control.in->data.size()) {
          ++control.in->arrived;
          return 1;
        }
      g_now_ns += std::max(ns, 0ll);
      return 0;
    }
    m_inside = true;
    const auto result = on_client_waits();
    if (!result)
      g_now_ns += std::max(ns, 0ll);
    m_inside = false;
    return result;
  }

  int on_client_waits() {
    if (m_control_thread.joinable()) {
      if (net::state().accepted == m_last_accepted && ++m_control_waits < 5)
        return 0;
      finish_connecting();
    }
    if (m_waits) {
      --m_waits;
      return 0;
    }
    if (!m_late.is_null()) {
      apply(std::exchange(m_late, { }));
      m_waits = 2;
      return 1;
    }
    finish();
    const auto ev = next();
    if (is_early(ev[0])) {
      apply(ev);
      m_waits = 2;
      return 1;
    }
    // after changes were detected
    m_late = ev;
    return 0;
  }

  static bool is_early(const std::string& kind) {
    for (auto k : { "reload", "tog", "tinfo", "exit", "disc", "val", "win", "loop" })
      if (kind == k)
        return true;
    return false;
  }

  // the next event after which the client continues
  json next() {
    for (;;) {
      char buffer[1 << 14];
      if (!std::fgets(buffer, sizeof(buffer), m_commands))
        _exit(0);
      alarm(10);
      auto ev = json::parse(buffer);
      if (!possible(ev))
        ev = json::array({ "loop" });
      const auto& kind = ev[0].get_ref<const std::string&>();
      if (kind == "write") {
        disk[ev[1].get<int>()] = ev[2].get<int>();
        write_file(ev[1].get<int>(), ev[2].get<int>(), ev[3].get<int>());
      }
      else if (kind == "win") {
        const auto& w = scenario["wins"][ev[1].get<size_t>() - 1];
        const auto window = Window{ to_chars(w["c"]), to_chars(w["t"]), to_chars(w["p"]) };
        const auto changed = !(window == g_window);
        g_window = window;
        // together with what happens next
        if (!changed || ev[2].get<bool>())
          return ev;
      }
      else if (started || kind == "start")
        return ev;
      reply({ });
    }
  }

  void apply(const json& ev) {
    const auto& kind = ev[0].get_ref<const std::string&>();
    const auto arg = [&](size_t i) { return ev[i].get<int>(); };
    if (kind == "reload" || kind == "tog" || kind == "tinfo" || kind == "exit") {
      g_chosen.push_back(kind);
      if (kind == "tog")
        active = !active;
    }
    else if (kind == "disc") {
      virtual_keys.clear();
      server_port->disconnect();
    }
    else if (kind == "act") {
      // the server knows the configuration
      read_by_server();
      const auto n = arg(1);
      const auto index = (n < 10 ? server.actions.at(static_cast<size_t>(n)) : n * 10);
      if (index >= 0)
        server_port->send_triggered_action(index);
      if (n < 10 && index >= 0)
        m_executing = std::string("\0r", 2);
    }
    else if (kind == "svk") {
      if (arg(2) == 1)
        virtual_keys.insert(arg(1));
      else
        virtual_keys.erase(arg(1));
      server_port->send_virtual_key_state(static_cast<Key>(arg(1)), to_state(arg(2)));
    }
    else if (kind == "info") {
      server_port->send_next_key_info(static_cast<Key>(arg(1)), DeviceDesc{ "device name", "device id" });
      m_executing = "scan_code";
      for (const auto& [c, control] : controls)
        if (control.info)
          m_executing.clear();
    }
    else if (kind == "val")
      g_state.send_validate_state();
    else if (kind == "cc")
      start_connecting(arg(1));
    else if (kind == "cd")
      controls.erase(arg(1));
    else if (kind == "multi")
      for (const auto& e : ev[2])
        request(e);
    else if (kind != "loop" && kind != "win")
      request(ev);
  }

  void write_file(int f, int c, int age) {
    const auto name = filename(f);
    std::filesystem::remove(name);
    if (c == 0)
      return;
    {
      auto os = std::ofstream(name);
      os << scenario["cfgs"][static_cast<size_t>(c) - 1]["x"].get<std::string>();
    }
    // moments later, seconds later, restored from a backup
    file_time += (age == 1 ? 5'000'000 : 2'000'000'000);
    old_time += 1'000'000'000;
    const auto time = (age == 3 ? old_time : file_time);
    const timespec times[] = { { time / 1'000'000'000, time % 1'000'000'000 },
                               { time / 1'000'000'000, time % 1'000'000'000 } };
    if (utimensat(AT_FDCWD, name.c_str(), times, 0))
      throw std::runtime_error("utimensat");
  }

  void start_connecting(int c) {
    auto& control = controls[c];
    control = { };
    control.port = std::make_unique<ControlClientPort>();
    m_control = c;
    m_control_waits = 0;
    m_last_accepted = net::state().accepted = -1;
    m_control_connected = false;
    net::state().established = -1;
    m_control_thread = std::thread([port = control.port.get(), this]() {
      m_control_connected = port->connect(std::chrono::milliseconds(1));
    });
    // until it is in the queue
    for (auto i = 0; i < 20000 && net::state().established < 0; ++i)
      usleep_real();
  }

  void finish_connecting() {
    auto& control = controls[m_control];
    if (net::state().accepted == m_last_accepted) {
      m_control_thread.detach();
      control.port.release();
    }
    else
      m_control_thread.join();
    if (!m_control_connected) {
      server.observed.push_back({ 33, m_control });
      controls.erase(m_control);
      return;
    }
    control.fd = net::state().established;
    std::tie(control.out, control.in) = net::control(control.fd, net::state().accepted);
    control.out->automatic = true;
  }

  static void usleep_real() {
    auto ts = timespec{ 0, 100'000 };
    syscall(SYS_nanosleep, &ts, nullptr);
  }

  void read_control(int c, Control& control, Observed& result) {
    for (auto i = 0; i < 20; ++i) {
      auto ok = true;
      auto done = false;
      if (control.info) {
        auto info = std::string();
        ok = control.port->read_next_key_info(std::chrono::milliseconds(10), &info);
        if (ok && !info.empty()) {
          control.info = false;
          add_info({ 31, c }, info, result);
          done = true;
        }
      }
      else {
        auto state = std::optional<KeyState>();
        ok = control.port->read_virtual_key_state(std::chrono::milliseconds(10), &state);
        if (ok && state) {
          result.push_back({ 30, c, from_state(*state) });
          done = true;
        }
      }
      if (!ok) {
        result.push_back({ 32, c });
        control.port.reset();
        return;
      }
      if (!done) {
        // does not depend on when the bytes arrive
        if (control.in->taken != control.in->data.size())
          result.push_back({ 34, c });
        return;
      }
    }
  }

  void add_info(std::vector<int> o, const std::string& info, Observed& result) {
    const auto code = info.find("scan_code = 0x");
    o.push_back(code == std::string::npos ? -1 : static_cast<int>(std::strtol(info.c_str() + code + 14, nullptr, 16)));
    const auto check = [&](const std::string& s) {
      o.push_back(s.empty() || info.find("'" + s + "'") != std::string::npos);
    };
    check("device name");
    check("device id");
    if (active) {
      check(g_window.window_class);
      check(g_window.title);
      check(g_window.path);
    }
    else
      o.insert(o.end(), 3, 1);
    result.push_back(std::move(o));
  }

  // what makes no sense is left out
  bool possible(const json& ev) {
    const auto& kind = ev[0].get_ref<const std::string&>();
    const auto arg = [&](size_t i) { return ev[i].get<int>(); };
    const auto control = [&]() {
      const auto it = controls.find(arg(1));
      return (it == controls.end() ? nullptr : &it->second);
    };
    if (kind == "write") return disk[arg(1)] != arg(2);
    if (kind == "start") return !started;
    if (!started) return false;
    if (kind == "svk") return (virtual_keys.count(arg(1)) > 0) != (arg(2) == 1);
    if (kind == "cc") return !control();
    if (kind == "cd") return control() != nullptr;
    if (kind == "nki") return control() && !control()->info && !control()->waited;
    if (is_request(kind) || kind == "multi") return control() && !control()->info;
    return true;
  }

  static bool is_request(const std::string& kind) {
    for (auto k : { "get", "set", "wait", "inst", "setcfg", "ii", "io", "type" })
      if (kind == k)
        return true;
    return false;
  }

  void request(const json& ev) {
    const auto& kind = ev[0].get_ref<const std::string&>();
    const auto name = [&](size_t i) { return scenario["names"][ev[i].get<size_t>() - 1]["x"].get<std::string>(); };
    const auto expr = [&](size_t i) { return scenario["exprs"][ev[i].get<size_t>() - 1]["x"].get<std::string>(); };
    const auto c = ev[1].get<int>();
    auto& control = controls.at(c);
    auto& port = *control.port;
    auto ok = true;
    if (kind == "get") ok = port.send_get_virtual_key_state(name(2));
    else if (kind == "set") ok = port.send_set_virtual_key_state(name(2), to_state(ev[3].get<int>()));
    else if (kind == "wait") {
      control.waited = true;
      ok = port.send_request_virtual_key_toggle_notification(name(2));
    }
    else if (kind == "inst") ok = port.send_set_instance_id(ev[2].get<std::string>());
    else if (kind == "setcfg") ok = port.send_set_config_file(filename(ev[2].get<int>()));
    else if (kind == "nki") {
      control.info = true;
      ok = port.send_request_next_key_info();
    }
    else if (kind == "ii") ok = port.send_inject_input(expr(2));
    else if (kind == "io") ok = port.send_inject_output(expr(2));
    else if (kind == "type") ok = port.send_type_string(expr(2));
    else
      throw std::runtime_error("event");
    if (!ok)
      server.observed.push_back({ 35, c });
  }

  void read_by_server() {
    for (auto i = 0; i < 1000; ++i) {
      if (!server_port->read_messages(server, Duration::zero()))
        server.observed.push_back({ 43 });
      if (!to_server->available())
        break;
    }
  }

  // the results of the event
  void finish() {
    read_by_server();
    auto result = std::exchange(server.observed, { });
    auto infos = Observed();
    read_records(result, infos);
    result.insert(result.end(), infos.begin(), infos.end());
    for (auto it = controls.begin(); it != controls.end(); ) {
      read_control(it->first, it->second, result);
      it = (it->second.port ? std::next(it) : controls.erase(it));
    }
    auto& o = result.emplace_back(std::vector<int>{ 21 });
    for (auto i : server.active)
      if (i >= 0 && i < static_cast<int>(server.markers.size()))
        o.insert(o.end(), server.markers[static_cast<size_t>(i)].begin(), server.markers[static_cast<size_t>(i)].end());
      else
        o.push_back(-1);
    reply(result);
  }

  // what was recorded by the programs which the client executed
  void read_records(Observed& commands, Observed& infos) {
    auto text = std::string();
    for (auto i = 0; i < 20000; ++i) {
      auto is = std::ifstream(dir / "record", std::ios::binary);
      is.seekg(static_cast<std::streamoff>(m_recorded));
      text.assign(std::istreambuf_iterator<char>(is), { });
      const auto found = text.find(m_executing);
      if (m_executing.empty() || (found != std::string::npos && text.find('\0', found + m_executing.size()) != std::string::npos))
        break;
      usleep_real();
    }
    m_executing.clear();
    for (auto pos = size_t{ }, end = text.find('\0'); end != std::string::npos; pos = end + 1, end = text.find('\0', pos)) {
      const auto record = text.substr(pos, end - pos);
      m_recorded += record.size() + 1;
      if (record.empty())
        continue;
      if (record[0] == 'r')
        commands.push_back({ 40, std::atoi(record.c_str() + 1) });
      else if (record.find("scan_code") != std::string::npos) {
        // backslashes are escaped
        auto message = std::string();
        for (auto i = size_t{ 1 }; i < record.size(); ++i) {
          if (record[i] == '\\' && i + 1 < record.size())
            ++i;
          message.push_back(record[i]);
        }
        add_info({ 41 }, message, infos);
      }
    }
  }

  void reply(const Observed& observed) {
    const auto text = json(observed).dump() + "\n";
    if (syscall(SYS_write, m_replies, text.data(), text.size()) != static_cast<ssize_t>(text.size()))
      _exit(97);
  }

  const json& scenario;
  const std::filesystem::path dir;
  FILE* const m_commands;
  const int m_replies;
  const std::thread::id m_main;
  std::unique_ptr<IClientPort> server_port;
  Server server;
  std::map<int, Control> controls;
  std::shared_ptr<net::Pipe> to_server, to_client;
  long long file_time{ 1'000'000'000 * 1'000'000'000ll };
  long long old_time{ 900'000'000 * 1'000'000'000ll };
  bool active{ true };
  bool started{ };
  std::map<int, int> disk;
  std::set<int> virtual_keys;
  std::thread m_accepting, m_control_thread;
  int m_connecting_fd{ -1 };
  size_t m_greeting{ };
  int m_control{ };
  int m_control_waits{ };
  int m_last_accepted{ };
  std::atomic<bool> m_control_connected{ };
  bool m_inside{ };
  int m_waits{ };
  json m_late;
  std::string m_executing;  // expected in the records
  size_t m_recorded{ };
};

} // namespace

std::unique_ptr<StringTyperImpl> make_string_typer_x11() { return nullptr; }

std::unique_ptr<FocusedWindowSystem> make_focused_window_x11(FocusedWindowData* data) {
  return std::make_unique<FakeWindowSystem>(data);
}


std::unique_ptr<TrayIcon::IImpl> make_tray_icon_gtk() {
  return std::make_unique<FakeTrayIcon>();
}

struct System {
  using Event = std::string;
  static Event prepare(const json& ev) { return ev.dump() + "\n"; }

  std::filesystem::path dir;
  pid_t pid{ };
  int commands{ };
  FILE* replies{ };
  bool ended{ };

  explicit System(const json& scenario) {
    static auto counter = 0;
    const auto root = std::filesystem::path(std::getenv("DRIVER_DIR"));
    dir = root / (std::to_string(getpid()) + "-" + std::to_string(counter++));
    std::filesystem::create_directories(dir);
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
      throw std::runtime_error("pipe");
    pid = fork();
    if (pid < 0)
      throw std::runtime_error("fork");
    if (!pid) {
      // together with the programs it executes
      setpgid(0, 0);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(a[1]);
      close(b[0]);
      alarm(10);
      write_programs();
      if (!std::getenv("VERBOSE"))
        std::freopen("/dev/null", "w", stdout);
      g_window = { };
      net::state().instance++;
      auto world = World(scenario, dir, a[0], b[1]);
      auto file = world.filename(world.before());
      char name[] = "keymapper", config[] = "-c", update[] = "-u";
      char* argv[] = { name, config, file.data(), (scenario["auto"].get<bool>() ? update : nullptr), nullptr };
      const auto result = client_main(argv[3] ? 4 : 3, argv);
      world.end();
      _exit(result);
    }
    setpgid(pid, pid);
    close(a[0]);
    close(b[1]);
    commands = a[1];
    replies = fdopen(b[0], "r");
  }

  // only these are found
  void write_programs() {
    const auto write = [&](const char* name, const char* text) {
      const auto filename = dir / name;
      { std::ofstream(filename) << "#!/bin/sh\n" << text << "\n"; }
      chmod(filename.c_str(), 0755);
    };
    write("run", R"(printf '\0r%s\0' "$1" >> "$RECORD"; if [ "$1" -ge 900 ]; then while [ -e "$RECORD" ]; do /bin/sleep 0.5; done; fi)");
    write("notify-send", R"(for x; do :; done; printf 'n%s\0' "$x" >> "$RECORD")");
    const auto record = (dir / "record").string();
    setenv("RECORD", record.c_str(), 1);
    setenv("PATH", dir.c_str(), 1);
  }

  ~System() {
    close(commands);
    fclose(replies);
    if (pid) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
    auto error = std::error_code();
    std::filesystem::remove_all(dir, error);
  }

  Observed apply(const Event& ev) {
    if (ended)
      return { { 70 } };
    if (write(commands, ev.data(), ev.size()) != static_cast<ssize_t>(ev.size()))
      throw std::runtime_error("the client does not wait");
    static char buffer[1 << 20];
    if (std::fgets(buffer, sizeof(buffer), replies)) {
      auto observed = json::parse(buffer).get<Observed>();
      if (!observed.empty() && observed.back()[0] == 70)
        end();
      return observed;
    }
    end();
    return { { 70 } };
  }

  void end() {
    ended = true;
    auto status = 0;
    waitpid(pid, &status, 0);
    kill(-std::exchange(pid, 0), SIGKILL);
    if (WIFSIGNALED(status))
      throw std::runtime_error(WTERMSIG(status) == SIGALRM ? "the client does not respond" :
        std::string("the client was terminated by signal ") + strsignal(WTERMSIG(status)));
    if (WEXITSTATUS(status))
      throw std::runtime_error("the client ended with exit code " + std::to_string(WEXITSTATUS(status)));
  }
};

int main(int argc, char* argv[]) {
  signal(SIGPIPE, SIG_IGN);
  return driver_main<System>(argc, argv);
}
