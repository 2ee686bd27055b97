#pragma once
// Shared conversions between the JSON used by the checks and the
// runtime structures of the code under test.

#include "runtime/MultiStage.h"
#include "runtime/KeyEvent.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <string>

using json = nlohmann::json;

// states are numbered by the specification, independent of the enum values
inline KeyState to_state(int s) {
  switch (s) {
    case 0: return KeyState::Up;
    case 1: return KeyState::Down;
    case 2: return KeyState::Not;
    case 3: return KeyState::UpAsync;
    case 4: return KeyState::DownAsync;
    case 5: return KeyState::NoMightMatch;
    case 6: return KeyState::OutputOnRelease;
    case 7: return KeyState::DownMatched;
    case 8: return KeyState::UpMatched;
    case 9: return KeyState::NotTimeout_cancel_on_up_down;
  }
  throw std::runtime_error("invalid state");
}

inline int from_state(KeyState s) {
  for (auto i = 0; i < 10; ++i)
    if (to_state(i) == s)
      return i;
  return 99;
}

inline KeyEvent to_event(const json& j) {
  return KeyEvent(static_cast<Key>(j[0].get<int>()), to_state(j[1].get<int>()),
    static_cast<KeyEvent::value_t>(j[2].get<int>()));
}

inline KeySequence to_sequence(const json& j) {
  auto s = KeySequence();
  for (const auto& e : j)
    s.push_back(to_event(e));
  return s;
}

inline json from_event(const KeyEvent& e) {
  return json::array({ static_cast<int>(*e.key), from_state(e.state), static_cast<int>(e.value) });
}

inline json from_sequence(const KeySequence& s) {
  auto a = json::array();
  for (const auto& e : s)
    a.push_back(from_event(e));
  return a;
}

// texts are lists of letters
inline std::string to_text(const json& j) {
  auto s = std::string();
  for (const auto& c : j)
    s.push_back(static_cast<char>('a' + c.get<int>()));
  return s;
}

inline std::string to_pattern(const json& j) {
  const auto& p = j["p"];
  if (p.empty())
    return "";
  if (!j["rx"].get<bool>())
    return to_text(p[0]);
  auto s = std::string("/");
  for (const auto& alt : p) {
    if (s.size() > 1)
      s += "|";
    s += to_text(alt);
  }
  return s + "/";
}

inline Filter to_filter(const json& j) {
  auto f = Filter();
  f.string = to_pattern(j);
  if (!j["p"].empty() && j["rx"].get<bool>())
    f.regex = std::regex(f.string.substr(1, f.string.size() - 2));
  f.invert = j["inv"].get<bool>();
  return f;
}

inline Stage::Context to_context(const json& j) {
  auto c = Stage::Context();
  for (const auto& i : j["in"])
    c.inputs.push_back({ to_sequence(i["i"]), i["o"].get<int>() });
  for (const auto& o : j["out"])
    c.outputs.push_back(to_sequence(o));
  for (const auto& o : j["cmd"])
    c.command_outputs.push_back({ to_sequence(o["o"]), o["x"].get<int>() });
  c.device_filter = to_filter(j["dn"]);
  c.device_id_filter = to_filter(j["di"]);
  c.modifier_filter = to_sequence(j["mf"]);
  c.invert_modifier_filter = j["inv"].get<bool>();
  c.fallthrough = j["ft"].get<bool>();
  return c;
}

inline MultiStagePtr to_multi_stage(const json& cs) {
  auto stages = std::vector<StagePtr>();
  for (const auto& s : cs) {
    auto contexts = std::vector<Stage::Context>();
    for (const auto& c : s)
      contexts.push_back(to_context(c));
    stages.push_back(std::make_unique<Stage>(std::move(contexts)));
  }
  return std::make_unique<MultiStage>(std::move(stages));
}

inline std::vector<DeviceDesc> to_device_descs(const json& j) {
  auto descs = std::vector<DeviceDesc>();
  for (const auto& d : j)
    descs.push_back({ to_text(d["n"]), to_text(d["i"]), nullptr });
  return descs;
}
