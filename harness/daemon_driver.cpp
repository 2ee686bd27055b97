// Runs the complete server program on the devices of kernel.h: it is started
// in a process of its own and whenever it waits for something, the next event
// happens. The client is the real port of the client.
// Observations: [60,v,type,code,value,...] packet of events of a virtual
// device, [1,n] action, [2,key,state] virtual key, [3,key,device...] key info
// reported to the client, [5] connection closed by the server, [53,v,...]
// forward device created, [51,...] devices grabbed, [52,...] virtual devices,
// [70] the server has ended. Virtual device 0 is the keyboard, the others have
// the number of the device whose events they forward.
#define main server_main
#include "server/unix/main.cpp"
#undef main
#include "common.h"
#include "walker.h"
#include "kernel.h"
#include "client/ServerPort.h"
#include <ctime>
#include <sys/prctl.h>
#include <thread>

static std::atomic<long long> g_now_ns{ 1'000'000'000 };

extern "C" int clock_gettime(clockid_t, timespec* ts) {
  // time always passes
  const auto now = (g_now_ns += 10);
  ts->tv_sec = now / 1'000'000'000;
  ts->tv_nsec = now % 1'000'000'000;
  return 0;
}

namespace {

Config to_client_config(const json& stages, const json& filters) {
  auto config = Config();
  for (const auto& f : filters) {
    auto& filter = config.grab_device_filters.emplace_back();
    static_cast<Filter&>(filter) = to_filter(f);
    filter.by_id = f["id"].get<bool>();
  }
  for (const auto& stage : stages) {
    auto begin = true;
    for (const auto& j : stage) {
      const auto c = to_context(j);
      auto& context = config.contexts.emplace_back();
      context.begin_stage = std::exchange(begin, false);
      for (const auto& i : c.inputs)
        context.inputs.push_back({ i.input, i.output_index });
      context.outputs = c.outputs;
      for (const auto& o : c.command_outputs)
        context.command_outputs.push_back({ o.output, o.index });
      context.device_filter = c.device_filter;
      context.device_id_filter = c.device_id_filter;
      context.modifier_filter = c.modifier_filter;
      context.invert_modifier_filter = c.invert_modifier_filter;
      context.fallthrough = c.fallthrough;
    }
  }
  return config;
}

// the world around the server, lives in the server's process
class World : public ServerPort::MessageHandler {
public:
  World(const json& scenario, int commands, int replies)
    : m_scenario(scenario), m_commands(fdopen(commands, "r")), m_replies(replies) {
    auto& k = kernel::state();
    k.created = [this](const auto& device) { on_created(*device); };
    k.destroyed = [this](const auto& device) { m_virtual.erase(device->tag); };
    k.packet = [this](auto& device, const auto& events) { on_packet(device, events); };
    k.sleep = [](auto ns) { g_now_ns += ns; };
    k.listed = [this]() { on_listed(); };
    net::state().all = true;
    net::state().rough = false;
    net::state().wait = [this](int fd, long long ns) { return on_wait(fd, ns); };
    net::state().now = []() { return g_now_ns.load(); };
    auto tag = 0;
    for (const auto& d : scenario["devs"])
      m_devices.push_back(make_device(d, ++tag));
  }

  // the server has ended
  void end() {
    m_reports.clear();
    m_created.clear();
    m_observed.push_back({ 70 });
    reply();
  }

private:
  void on_execute_action_message(int index) override { m_reports.push_back({ 1, index }); }
  void on_virtual_key_state_message(Key key, KeyState state) override {
    m_reports.push_back({ 2, static_cast<int>(*key), from_state(state) });
  }
  void on_next_key_info_message(Key key, DeviceDesc device) override {
    auto o = std::vector<int>{ 3, static_cast<int>(*key) };
    for (auto c : device.name)
      o.push_back(c - 'a');
    o.push_back(-1);
    for (auto c : device.id)
      o.push_back(c - 'a');
    m_reports.push_back(std::move(o));
  }

  static kernel::DevicePtr make_device(const json& j, int tag) {
    auto device = std::make_shared<kernel::Device>();
    auto& d = *device;
    d.tag = tag;
    d.number = j["id"].get<int>();
    d.name = to_text(j["n"]);
    d.link = to_text(j["i"]);
    d.supported = j["ok"].get<bool>();
    d.gone = true;
    d.id = { BUS_USB, j["ids"][0].get<uint16_t>(), j["ids"][1].get<uint16_t>(), j["ids"][2].get<uint16_t>() };
    d.codes[EV_SYN] = { 0, EV_KEY };
    for (const auto& range : j["keys"])
      for (auto i = range[0].get<int>(); i <= range[1].get<int>(); ++i)
        d.codes[EV_KEY].insert(i);
    for (const auto& [type, name] : { std::pair{ EV_REL, "rel" }, std::pair{ EV_SW, "sw" }, std::pair{ EV_MSC, "msc" } })
      for (const auto& c : j[name])
        d.codes[type].insert(c.get<int>());
    for (const auto& a : j["abs"]) {
      d.codes[EV_ABS].insert(a[0].get<int>());
      d.axes[a[0].get<int>()] = { 0, a[1].get<int>(), a[2].get<int>(), a[3].get<int>(), a[4].get<int>(), a[5].get<int>() };
    }
    if (j["rep"].get<bool>())
      d.codes[EV_REP] = { 0, 1 };
    for (const auto& p : j["props"])
      d.properties.insert(p.get<int>());
    return device;
  }

  void on_created(kernel::Device& d) {
    // the device is known by its name
    d.tag = 0;
    if (d.name != VirtualDevices::name) {
      d.tag = -1;
      for (const auto& device : m_devices)
        if (!device->gone && d.name.rfind(device->name.substr(0, 40), 0) == 0)
          d.tag = device->tag;
      auto o = std::vector<int>{ 53, d.tag, d.id.vendor, d.id.product, d.id.version };
      const auto add = [&](const auto& codes) {
        o.insert(o.end(), codes.begin(), codes.end());
        o.push_back(-1);
      };
      add(d.codes[EV_REL]);
      add(d.codes[EV_SW]);
      add(d.codes[EV_MSC]);
      add(d.properties);
      for (const auto& [code, a] : d.axes)
        o.insert(o.end(), { code, a.minimum, a.maximum, a.fuzz, a.flat, a.resolution });
      o.push_back(-1);
      o.push_back(d.codes.count(EV_REP) > 0);
      o.push_back(static_cast<int>(d.codes[EV_KEY].size()));
      m_created.push_back(std::move(o));
    }
    m_virtual.insert(d.tag);
  }

  void on_packet(const kernel::Device& d, const std::vector<std::vector<int>>& events) {
    auto& o = m_observed.emplace_back(std::vector<int>{ 60, d.tag });
    for (const auto& e : events)
      o.insert(o.end(), e.begin(), e.end());
  }

  void on_listed() {
    if (m_appearing) {
      kernel::add(m_devices[static_cast<size_t>(m_appearing - 1)]);
      m_appearing = 0;
    }
  }

  // the server waits
  int on_wait(int fd, long long ns) {
    if (m_connecting.joinable()) {
      m_connecting.join();
      auto [up, down] = net::control(m_client.socket(), net::state().accepted);
      up->automatic = down->automatic = true;
      m_connected = true;
      m_on_connected();
      return 1;
    }
    if (m_budget > 0 && ns >= 0 && ns <= m_budget) {
      m_budget -= ns;
      g_now_ns += ns;
      return 0;
    }
    g_now_ns += std::exchange(m_budget, 0);

    // the keys of a device which is removed are released before it is gone
    if (m_removing) {
      remove(m_removing);
      m_removing.reset();
      return 1;
    }

    if (m_started) {
      if (m_connected && !m_client.read_messages(*this, Duration::zero())) {
        m_client.disconnect();
        m_connected = false;
        m_reports.push_back({ 5 });
      }
      reply();
    }
    m_started = true;
    return next(fd);
  }

  void reply() {
    std::sort(m_created.begin(), m_created.end());
    for (auto list : { &m_reports, &m_created }) {
      m_observed.insert(m_observed.end(), list->begin(), list->end());
      list->clear();
    }
    if (m_observed.empty() || m_observed.back()[0] != 70) {
      auto grabbed = std::vector<int>{ 51 };
      for (const auto& d : m_devices)
        if (!d->gone && d->grab.lock())
          grabbed.push_back(d->tag);
      // none of its own
      for (const auto& d : kernel::state().devices)
        if (d->number >= 100 && d->grab.lock())
          grabbed.push_back(1000 + d->tag);
      m_observed.push_back(grabbed);
      auto devices = std::vector<int>{ 52 };
      devices.insert(devices.end(), m_virtual.begin(), m_virtual.end());
      m_observed.push_back(devices);
    }
    const auto text = json(m_observed).dump() + "\n";
    m_observed.clear();
    if (syscall(SYS_write, m_replies, text.data(), text.size()) != static_cast<ssize_t>(text.size()))
      _exit(97);
  }

  // the next event happens
  int next(int fd) {
    char buffer[1 << 14];
    if (!std::fgets(buffer, sizeof(buffer), m_commands))
      _exit(0);
    alarm(10);
    g_now_ns += 20'000;
    const auto ev = json::parse(buffer);
    const auto& kind = ev[0].get_ref<const std::string&>();
    const auto arg = [&](size_t i) { return ev[i].get<int>(); };
    const auto device = [&](size_t i) { return m_devices[static_cast<size_t>(arg(i) - 1)]; };
    if (kind == "plug") {
      kernel::add(device(1));
      if (ev.size() > 2) {
        m_appearing = arg(2);
        if (!m_connected)
          on_listed();
      }
    }
    else if (kind == "unplug") {
      m_removing = device(1);
      if (!m_removing->down.empty()) {
        const auto down = m_removing->down;
        for (auto key : down)
          kernel::emit(*m_removing, EV_KEY, key, 0);
        kernel::emit(*m_removing, EV_SYN, SYN_REPORT, 0);
      }
    }
    else if (kind == "in") {
      if (!device(1)->gone) {
        for (const auto& e : ev[2])
          kernel::emit(*device(1), e[0].get<int>(), e[1].get<int>(), e[2].get<int>());
        kernel::emit(*device(1), EV_SYN, SYN_REPORT, 0);
      }
    }
    else if (kind == "t")
      m_budget = arg(1) * 1'000'000ll;
    else if (kind == "term") {
      raise(SIGTERM);
      return -1;
    }
    else if (kind == "conn") {
      if (!m_connected) {
        m_connecting = std::thread([this]() { m_client.connect(); });
        m_on_connected = [this, ev]() {
          send_config(ev[1].get<int>());
          if (ev.size() > 2)
            m_client.send_active_contexts(ev[2].get<std::vector<int>>());
        };
        while (!net::readable(fd))
          std::this_thread::yield();
      }
    }
    else if (m_connected) {
      if (kind == "disc") {
        m_client.disconnect();
        m_connected = false;
      }
      else if (kind == "bye") {
        send_config(arg(1));
        m_client.disconnect();
        m_connected = false;
      }
      else if (kind == "cfg") {
        send_config(arg(1));
        if (ev.size() > 2)
          m_client.send_active_contexts(ev[2].get<std::vector<int>>());
      }
      else if (kind == "c")
        m_client.send_active_contexts(ev[1].get<std::vector<int>>());
      else if (kind == "vk")
        m_client.send_set_virtual_key_state(static_cast<Key>(arg(1)), to_state(arg(2)));
      else if (kind == "nki")
        m_client.send_request_next_key_info();
      else if (kind == "ii")
        m_client.send_inject_input(to_sequence(ev[1]));
      else if (kind == "io")
        m_client.send_inject_output(to_sequence(ev[1]));
      else
        throw std::runtime_error("unknown event");
    }
    return 1;
  }

  void send_config(int c) {
    const auto i = static_cast<size_t>(c - 1);
    m_client.send_config(to_client_config(m_scenario["cfgs"][i], m_scenario["gf"][i]));
  }

  void remove(const kernel::DevicePtr& device) {
    kernel::remove(device);
    device->grab.reset();
    device->handles.clear();
    // a device which is plugged in again is a new one
    auto copy = std::make_shared<kernel::Device>(*device);
    m_devices[static_cast<size_t>(device->tag - 1)] = copy;
  }

  const json& m_scenario;
  FILE* const m_commands;
  const int m_replies;
  std::vector<kernel::DevicePtr> m_devices;
  std::set<int> m_virtual;
  Observed m_observed, m_reports, m_created;
  ServerPort m_client;
  std::thread m_connecting;
  std::function<void()> m_on_connected;
  bool m_connected{ };
  bool m_started{ };
  int m_appearing{ };
  kernel::DevicePtr m_removing;
  long long m_budget{ };
};

} // namespace

struct System {
  using Event = std::string;
  static Event prepare(const json& ev) { return ev.dump() + "\n"; }

  pid_t pid{ };
  int commands{ };
  FILE* replies{ };
  bool ended{ };

  explicit System(const json& scenario) {
    int a[2], b[2];
    if (pipe(a) || pipe(b))
      throw std::runtime_error("pipe");
    pid = fork();
    if (pid < 0)
      throw std::runtime_error("fork");
    if (!pid) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(a[1]);
      close(b[0]);
      alarm(10);
      if (std::getenv("VERBOSE")) { dup2(2, 1); g_verbose_output = true; } else std::freopen("/dev/null", "w", stdout);
      net::state().instance++;
      auto world = World(scenario, a[0], b[1]);
      char name[] = "keymapperd";
      char verbose[] = "-v";
      char* argv[] = { name, (std::getenv("VERBOSE") ? verbose : nullptr), nullptr };
      const auto result = server_main(argv[1] ? 2 : 1, argv);
      world.end();
      _exit(result);
    }
    close(a[0]);
    close(b[1]);
    commands = a[1];
    replies = fdopen(b[0], "r");
  }

  ~System() {
    close(commands);
    fclose(replies);
    if (pid) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
  }

  Observed apply(const Event& ev) {
    if (ended)
      return { { 70 } };
    if (write(commands, ev.data(), ev.size()) != static_cast<ssize_t>(ev.size()))
      throw std::runtime_error("the server does not wait");
    static char buffer[1 << 20];
    if (std::fgets(buffer, sizeof(buffer), replies)) {
      auto observed = json::parse(buffer).get<Observed>();
      if (!observed.empty() && observed.back()[0] == 70)
        end(false);
      return observed;
    }
    end(ev.find("term") != std::string::npos);
    return { { 70 } };
  }

  void end(bool terminated) {
    ended = true;
    auto status = 0;
    waitpid(std::exchange(pid, 0), &status, 0);
    if (terminated && WIFSIGNALED(status) && WTERMSIG(status) == SIGTERM)
      return;
    if (WIFSIGNALED(status))
      throw std::runtime_error(WTERMSIG(status) == SIGALRM ? "the server does not terminate" :
        std::string("the server was terminated by signal ") + strsignal(WTERMSIG(status)));
    if (WEXITSTATUS(status))
      throw std::runtime_error("the server ended with exit code " + std::to_string(WEXITSTATUS(status)));
  }
};

int main(int argc, char* argv[]) {
  signal(SIGPIPE, SIG_IGN);
  return driver_main<System>(argc, argv);
}
