#pragma once
// Replays histories into a system under test and compares what is observed
// with the specification. An observation is a list of integer tuples.
//   run IN OUT           record what is observed, one JSON scenario per line
//   walk IN SEED STEPS   compare with the graphs of the specification: every
//                        transition, then random walks
//
// System provides:
//   struct Event; static Event prepare(const json&);
//   System(const json& scenario); Observed apply(const Event&);

#include "guard.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>

using json = nlohmann::json;
using Observed = std::vector<std::vector<int>>;

template<typename System>
int run_scenarios(const char* in, const char* out) {
  auto is = std::ifstream(in);
  auto os = std::ofstream(out);
  auto line = std::string();
  while (std::getline(is, line)) {
    const auto s = json::parse(line);
    auto result = std::string();
    const auto error = guarded([&](FILE* f) {
      auto system = System(s);
      auto obs = json::array();
      auto step = 0;
      for (const auto& ev : s["ev"]) {
        note(std::to_string(step++));
        obs.push_back(system.apply(System::prepare(ev)));
      }
      const auto text = json{ { "obs", obs } }.dump();
      std::fwrite(text.data(), 1, text.size(), f);
    }, result);
    if (!error.empty())
      result = json{ { "crash", error }, { "step", std::atoi(notes().text) } }.dump();
    os << result << std::endl;
  }
  return 0;
}

template<typename System>
int walk_graphs(const char* in, unsigned seed, int steps) {
  struct Transition {
    int event, expected, to;
  };
  auto is = std::ifstream(in);
  auto line = std::string();
  while (std::getline(is, line)) {
    const auto s = json::parse(line);
    auto events = std::vector<typename System::Event>();
    for (const auto& ev : s["ev"])
      events.push_back(System::prepare(ev));
    auto init = std::vector<typename System::Event>();
    for (const auto& ev : s["init"])
      init.push_back(System::prepare(ev));
    const auto expected = s["expected"].get<std::vector<Observed>>();
    auto states = std::vector<std::vector<Transition>>(s["states"].get<size_t>());
    for (const auto& t : s["trans"])
      states[t[0].get<size_t>()].push_back({ t[1].get<int>(), t[2].get<int>(), t[3].get<int>() });

    auto result = std::string();
    const auto error = guarded([&](FILE* f) {
      auto path = std::vector<int>();
      auto system = std::unique_ptr<System>();
      long long covered = 0, walked = 0, walks = 0;
      auto restart = [&]() {
        path.clear();
        system = std::make_unique<System>(s);
        for (const auto& e : init)
          system->apply(e);
      };
      auto note_path = [&]() {
        auto ss = std::ostringstream();
        for (auto p : path)
          ss << p << ' ';
        note(ss.str());
      };
      // returns false on mismatch
      auto step = [&](const Transition& t) {
        path.push_back(t.event);
        note_path();
        const auto observed = system->apply(events[t.event]);
        if (observed == expected[t.expected])
          return true;
        const auto text = json{ { "mismatch", {
          { "path", path }, { "got", observed }, { "expected", t.expected } } } }.dump();
        std::fwrite(text.data(), 1, text.size(), f);
        return false;
      };

      // breadth first tree
      auto parent = std::vector<std::pair<int, const Transition*>>(states.size(), { -1, nullptr });
      auto order = std::vector<int>{ 0 };
      for (auto i = size_t{ }; i < order.size(); ++i)
        for (const auto& t : states[order[i]])
          if (t.to != 0 && parent[t.to].first < 0) {
            parent[t.to] = { order[i], &t };
            order.push_back(t.to);
          }
      // every transition of every state, continuing from where the last one led
      auto next = std::vector<size_t>(states.size());
      for (auto target : order) {
        while (next[target] < states[target].size()) {
          auto prefix = std::vector<const Transition*>();
          for (auto p = target; p != 0; p = parent[p].first)
            prefix.push_back(parent[p].second);
          alive();
          restart();
          for (auto it = prefix.rbegin(); it != prefix.rend(); ++it)
            if (!step(**it))
              return;
          for (auto state = target; next[state] < states[state].size() && path.size() < 1000; ) {
            const auto& t = states[state][next[state]++];
            if (!step(t))
              return;
            ++covered;
            state = t.to;
          }
        }
      }
      // random walks
      auto rand = std::mt19937(seed);
      while (walked < steps) {
        restart();
        ++walks;
        alive();
        auto state = 0;
        const auto length = 20 + static_cast<int>(rand() % 400);
        for (auto i = 0; i < length; ++i) {
          const auto& ts = states[state];
          if (ts.empty())
            break;
          const auto& t = ts[rand() % ts.size()];
          if (!step(t))
            return;
          ++walked;
          state = t.to;
        }
        if (states[0].empty())
          break;
      }
      std::fprintf(f, "{\"covered\":%lld,\"walked\":%lld,\"walks\":%lld}", covered, walked, walks);
    }, result);
    if (!error.empty())
      result = json{ { "crash", error }, { "path", notes().text } }.dump();
    std::cout << result << std::endl;
  }
  return 0;
}

template<typename System>
int driver_main(int argc, char* argv[]) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  const auto mode = std::string(argc > 1 ? argv[1] : "");
  if (mode == "run" && argc == 4)
    return run_scenarios<System>(argv[2], argv[3]);
  if (mode == "walk" && argc == 5)
    return walk_graphs<System>(argv[2], static_cast<unsigned>(std::atol(argv[3])), std::atoi(argv[4]));
  return 2;
}
