// Drives the real parser of key expressions. An event appends a piece of text
// to the expression, observed is the outcome of parsing all of it. The same
// parser object is used for all of them, as it is when loading a configuration.

#include "common.h"
#include "walker.h"
#include "config/ParseKeySequence.h"

class ParseSystem {
public:
  struct Event {
    std::string text;
  };

  static Event prepare(const json& j) {
    return { j["x"].get<std::string>() };
  }

  explicit ParseSystem(const json& s) : m_input(s["in"].get<bool>()) { }

  Observed apply(const Event& event) {
    m_text += event.text;
    auto commands = std::vector<std::string>();
    auto sequence = KeySequence();
    try {
      sequence = m_parse(m_text, m_input, ::get_key_by_name,
        [&](std::string_view command) {
          commands.emplace_back(command);
          return static_cast<Key>(*Key::first_action + commands.size() - 1);
        });
    }
    catch (const std::exception&) {
      return { { 0 } };
    }
    auto result = Observed{ { 1 } };
    for (const auto& e : sequence)
      result.push_back({ static_cast<int>(*e.key), from_state(e.state), static_cast<int>(e.value) });
    for (const auto& c : commands) {
      auto text = std::vector<int>{ -1 };
      for (auto ch : c)
        text.push_back(static_cast<unsigned char>(ch));
      result.push_back(std::move(text));
    }
    return result;
  }

private:
  const bool m_input;
  std::string m_text;
  ParseKeySequence m_parse;
};

int main(int argc, char* argv[]) {
  return driver_main<ParseSystem>(argc, argv);
}
