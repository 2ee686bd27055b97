// Drives the real parser of configuration files. An event appends a line to
// the file (and possibly creates files to include), observed is the outcome
// of parsing the whole file: an error or the blocks which have an effect.

#include "common.h"
#include "walker.h"
#include "config/ParseConfig.h"
#include <filesystem>
#include <map>
#include <regex>
#include <set>
#include <unistd.h>

namespace {
  void add_string(std::vector<int>& v, const std::string& s) {
    for (auto c : s)
      v.push_back(static_cast<unsigned char>(c));
  }

  void add_events(std::vector<int>& v, const KeySequence& s) {
    for (const auto& e : s)
      v.insert(v.end(), { static_cast<int>(*e.key), from_state(e.state), static_cast<int>(e.value) });
  }

  // the order of keys which are released first does not matter
  KeySequence sorted_nots(KeySequence s) {
    const auto end = std::find_if(s.begin(), s.end(),
      [](const KeyEvent& e) { return e.state != KeyState::Not; });
    std::sort(s.begin(), end,
      [](const KeyEvent& a, const KeyEvent& b) { return a.key < b.key; });
    return s;
  }

  void add_filter(std::vector<int>& v, int kind, const Filter& filter) {
    if (filter.string.empty())
      return;
    v.insert(v.end(), { -1, kind, filter.invert, filter.regex.has_value() });
    add_string(v, filter.string);
  }

  // the order of modifiers does not matter
  struct Alternative {
    std::vector<int> filters;
    bool invert;
    std::set<std::vector<int>> modifiers;

    bool implies(const Alternative& a) const {
      return (filters == a.filters && !invert && !a.invert && modifiers != a.modifiers &&
        std::includes(modifiers.begin(), modifiers.end(), a.modifiers.begin(), a.modifiers.end()));
    }
  };

  Alternative alternative(const Config::Context& c) {
    auto v = std::vector<int>{ 3 };
    add_filter(v, 1, c.window_class_filter);
    add_filter(v, 2, c.window_title_filter);
    add_filter(v, 3, c.window_path_filter);
    add_filter(v, 4, c.device_filter);
    add_filter(v, 5, c.device_id_filter);
    auto modifiers = std::set<std::vector<int>>();
    for (const auto& e : c.modifier_filter) {
      auto m = std::vector<int>();
      add_events(m, { e });
      modifiers.insert(std::move(m));
    }
    return { std::move(v), c.invert_modifier_filter && !modifiers.empty(), std::move(modifiers) };
  }

  // alternatives which imply others do not matter
  std::set<std::vector<int>> weakest(const std::vector<Alternative>& alternatives) {
    auto result = std::set<std::vector<int>>();
    for (const auto& a : alternatives) {
      if (std::any_of(alternatives.begin(), alternatives.end(),
            [&](const Alternative& b) { return a.implies(b); }))
        continue;
      auto v = a.filters;
      if (!a.modifiers.empty()) {
        v.insert(v.end(), { -2, a.invert });
        for (const auto& m : a.modifiers)
          v.insert(v.end(), m.begin(), m.end());
      }
      result.insert(std::move(v));
    }
    return result;
  }

  Observed observe(const Config& config) {
    auto result = Observed{ { 1 } };
    auto numbers = std::map<int, int>{ };
    const auto number = [&](int index) {
      return numbers.emplace(index, static_cast<int>(numbers.size()) + 1).first->second;
    };
    auto alternatives = std::vector<Alternative>();
    auto stage = 0, last_stage = 0;
    for (const auto& context : config.contexts) {
      if (context.begin_stage)
        ++stage;
      if (context.system_filter_matched)
        alternatives.push_back(alternative(context));
      if (context.fallthrough)
        continue;
      if (!alternatives.empty() && (!context.inputs.empty() || !context.command_outputs.empty())) {
        if (result.size() > 1 && last_stage != stage)
          result.push_back({ 2 });
        last_stage = stage;
        const auto alts = weakest(alternatives);
        result.insert(result.end(), alts.begin(), alts.end());
        for (const auto& input : context.inputs) {
          const auto direct = (input.output_index >= 0);
          auto v = std::vector<int>{ 6, direct ? 0 : number(input.output_index) };
          add_events(v, input.input);
          v.push_back(-3);
          if (direct)
            add_events(v, sorted_nots(context.outputs.at(input.output_index)));
          result.push_back(std::move(v));
        }
        for (const auto& command : context.command_outputs) {
          auto v = std::vector<int>{ 9, number(command.index) };
          add_events(v, sorted_nots(command.output));
          result.push_back(std::move(v));
        }
      }
      alternatives.clear();
    }
    for (const auto& action : config.actions) {
      auto v = std::vector<int>{ 10 };
      add_string(v, action.terminal_command);
      result.push_back(std::move(v));
    }
    auto aliases = std::set<std::vector<int>>();
    for (const auto& [name, key] : config.virtual_key_aliases) {
      auto v = std::vector<int>{ 11, *key };
      add_string(v, name);
      aliases.insert(std::move(v));
    }
    result.insert(result.end(), aliases.begin(), aliases.end());
    for (const auto& filter : config.grab_device_filters) {
      auto v = std::vector<int>{ 12, filter.by_id, filter.invert, filter.regex.has_value() };
      add_string(v, filter.string);
      result.push_back(std::move(v));
    }
    for (auto option : config.options)
      result.push_back({ 13, static_cast<int>(option) });
    for (const auto& directive : config.server_directives) {
      auto v = std::vector<int>{ 14 };
      add_string(v, directive);
      result.push_back(std::move(v));
    }
    return result;
  }
} // namespace

class ConfigSystem {
public:
  static inline int counter = 0;

  struct Event {
    std::string text;
    std::vector<std::pair<std::string, std::string>> files;
  };

  static Event prepare(const json& j) {
    auto event = Event{ j["x"].get<std::string>(), { } };
    if (j.contains("files"))
      event.files = j["files"].get<decltype(event.files)>();
    return event;
  }

  explicit ConfigSystem(const json&)
    : m_directory(std::filesystem::path(std::getenv("DRIVER_DIR")) / (std::to_string(::getpid()) + "-" + std::to_string(counter++))) {
    std::filesystem::create_directories(m_directory);
  }

  ~ConfigSystem() {
    std::filesystem::remove_all(m_directory);
  }

  Observed apply(const Event& event) {
    if (!m_first)
      m_text += '\n';
    m_first = false;
    m_text += event.text;
    for (const auto& [name, content] : event.files) {
      std::ofstream(m_directory / name, std::ios::binary) << content;
      m_files.push_back(name);
    }
    auto is = std::istringstream(m_text);
    try {
      return observe(m_parse(is, m_directory));
    }
    catch (const std::exception& ex) {
      const auto message = std::string(ex.what());
      auto line = 0;
      auto match = std::smatch();
      if (std::regex_search(message, match, std::regex("line (\\d+)$")))
        line = std::stoi(match[1]);
      const auto in_file = std::any_of(m_files.begin(), m_files.end(),
        [&](const std::string& file) { return message.find(file + "' in line") != std::string::npos; });
      return { { 0, line, in_file } };
    }
  }

private:
  const std::filesystem::path m_directory;
  bool m_first{ true };
  std::string m_text;
  std::vector<std::string> m_files;
  ParseConfig m_parse;
};

int main(int argc, char* argv[]) {
  return driver_main<ConfigSystem>(argc, argv);
}
