// Replays histories into the mapping engine. Observations: the emitted events
// [key,state,value], then [-1, exit requested] and [-2, keys down on output...].
#include "common.h"
#include "walker.h"

struct System {
  // ["k",key,state,value,device] ["c",[contexts]] ["d",[devices]] ["v",[keys down]]
  struct Event {
    char kind;
    KeyEvent key;
    int device;
    std::vector<int> list;
    std::vector<DeviceDesc> descs;
  };

  static Event prepare(const json& ev) {
    auto e = Event{ ev[0].get<std::string>()[0] };
    if (e.kind == 'k') {
      e.key = to_event(json::array({ ev[1], ev[2], ev[3] }));
      e.device = ev[4].get<int>();
    }
    else if (e.kind == 'd')
      e.descs = to_device_descs(ev[1]);
    else
      e.list = ev[1].get<std::vector<int>>();
    return e;
  }

  MultiStagePtr stage;

  explicit System(const json& scenario)
    : stage(to_multi_stage(scenario["cs"])) {
  }

  Observed apply(const Event& e) {
    auto output = KeySequence();
    switch (e.kind) {
      case 'k': output = stage->update(e.key, e.device); break;
      case 'c': output = stage->set_active_client_contexts(e.list); break;
      case 'd': stage->evaluate_device_filters(e.descs); break;
      case 'v': stage->validate_state([&](Key key) {
          return std::count(e.list.begin(), e.list.end(), static_cast<int>(*key)) > 0;
        });
        break;
    }
    auto observed = Observed();
    for (const auto& o : output)
      observed.push_back({ static_cast<int>(*o.key), from_state(o.state), static_cast<int>(o.value) });
    stage->reuse_buffer(std::move(output));

    observed.push_back({ -1, stage->should_exit() });
    auto down = std::vector<int>();
    for (auto key : stage->get_output_keys_down())
      down.push_back(static_cast<int>(*key));
    std::sort(down.begin(), down.end());
    down.insert(down.begin(), -2);
    observed.push_back(std::move(down));
    return observed;
  }
};

int main(int argc, char* argv[]) {
  return driver_main<System>(argc, argv);
}
