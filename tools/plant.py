#!/usr/bin/env python3
"""Development tool: turns bug descriptions into seeded/<id>/ after verifying
that the changed tree compiles, passes the existing tests, and that the
demonstration tells it apart from the unchanged tree. Works in a scratch copy.
usage: plant.py FILE.py [id ...]   (FILE.py defines BUGS, a list of dicts)"""
import importlib.util, json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plantcopy"

ENGINE_SH = '''#!/bin/bash
# compiles the demonstration with the sources of the working directory
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 99
trap 'rm -r "$work"' EXIT
g++ -std=c++17 -O0 -w -Isrc -Isrc/test -o "$work/demo" "$here/demo.cpp" %s || exit 98
timeout 60 "$work/demo" "$@"
'''
TEST_SOURCES = ("src/test/test.cpp src/runtime/*.cpp src/config/*.cpp "
                "src/client/unix/StringTyperImpl.cpp src/client/unix/StringTyperGeneric.cpp")
COMMON_CPP = r'''#include "test.h"
#include "runtime/Timeout.h"
#include <cstdio>
#include <cstring>

static bool g_record, g_failed;

static void expect(const char* what, const std::string& got, const char* expected) {
  if (g_record)
    std::printf("@=%s\n", got.c_str());
  else if (got != expected) {
    std::printf("%s: got '%s' instead of '%s'\n", what, got.c_str(), expected);
    g_failed = true;
  }
}
'''
MAIN_CPP = r'''
static void demo();

TEST_CASE("demo") {
  g_record = (std::getenv("DEMO_RECORD") != nullptr);
  demo();
  CHECK(!g_failed);
}

static void demo() {
@BODY@
}
'''
ENGINE_CPP = COMMON_CPP + r'''
static std::string keys(MultiStage& stage, const char* input, int device = 0) {
  auto sequence = KeySequence();
  for (const auto& event : parse_sequence(input, input + std::strlen(input))) {
    auto output = stage.update(event, device);
    sequence.insert(sequence.end(), output.begin(), output.end());
    stage.reuse_buffer(std::move(output));
  }
  return format_sequence(sequence);
}

static std::string elapsed(MultiStage& stage, int ms) {
  auto output = stage.update(reply_timeout_ms(ms), Stage::any_device_index);
  auto text = format_sequence(output);
  stage.reuse_buffer(std::move(output));
  return text;
}

static std::string contexts(MultiStage& stage, std::vector<int> indices) {
  auto output = stage.set_active_client_contexts(indices);
  auto text = format_sequence(output);
  stage.reuse_buffer(std::move(output));
  return text;
}

static std::string devices(MultiStage& stage, std::vector<DeviceDesc> descs) {
  stage.evaluate_device_filters(descs);
  return "";
}

static std::string down(MultiStage& stage) {
  return format_list(stage.get_output_keys_down());
}
''' + MAIN_CPP
SERVER_CPP = COMMON_CPP + r'''#include "server/ServerState.h"
#include "config/get_key_name.h"
#include <ctime>

static long long g_now = 1'000'000'000;
static std::string g_events;

extern "C" int clock_gettime(clockid_t, timespec* ts) {
  ts->tv_sec = g_now / 1'000'000'000;
  ts->tv_nsec = g_now % 1'000'000'000;
  return 0;
}

static void add(const std::string& event) {
  g_events += (g_events.empty() ? "" : " ") + event;
}

struct Client : IClientPort {
  std::function<void(MessageHandler&)> message;
  Socket socket() const override { return 0; }
  Socket listen_socket() const override { return 0; }
  bool version_mismatch() const override { return false; }
  bool listen() override { return false; }
  bool accept() override { return false; }
  void disconnect() override { }
  bool send_triggered_action(int action) override { add("action" + std::to_string(action)); return true; }
  bool send_virtual_key_state(Key key, KeyState state) override {
    add("report(" + std::to_string(*key - *Key::first_virtual) + (state == KeyState::Down ? " on)" : " off)"));
    return true;
  }
  bool send_next_key_info(Key key, const DeviceDesc& desc) override {
    add("info(" + std::string(get_key_name(key)) + " " + desc.name + " " + desc.id + ")");
    return true;
  }
  bool read_messages(MessageHandler& handler, std::optional<Duration>) override {
    std::exchange(message, nullptr)(handler);
    return true;
  }
};

struct Server : ServerState {
  Client* client;
  bool fail{ };
  explicit Server(Client* client) : ServerState(std::unique_ptr<IClientPort>(client)), client(client) { }
  bool on_send_key(const KeyEvent& event) override {
    if (fail)
      return false;
    add(format_sequence({ event }) + (event.value ? ":" + std::to_string(event.value) : ""));
    return true;
  }
  void on_exit_requested() override { add("exit"); }
  void on_grab_device_filters_message(std::vector<GrabDeviceFilter>) override { }
  bool on_validate_key_is_down(Key) override { return true; }
};

static Server* g_server;

static std::string take() { return std::exchange(g_events, { }); }

static std::string message(std::function<void(ClientPort::MessageHandler&)> send) {
  g_now += 10;
  g_server->client->message = std::move(send);
  g_server->read_client_messages();
  return take();
}

static void loop() {
  auto& s = *g_server;
  if (s.timeout_start_at() && Clock::now() >= *s.timeout_start_at() + s.timeout()) {
    const auto timeout = make_input_timeout_event(s.timeout());
    s.cancel_timeout();
    s.translate_input(timeout, Stage::any_device_index);
  }
  if (!s.flush_scheduled_at() || Clock::now() > s.flush_scheduled_at())
    if (!s.flush_send_buffer()) {
      add("lost");
      s.reset_configuration();
    }
}

static std::string config(const char* text) {
  return message([&](auto& h) { h.on_configuration_message(create_multi_stage(text)); });
}

static std::string contexts(std::vector<int> indices) {
  return message([&](auto& h) { h.on_active_contexts_message(indices); });
}

static std::string disconnect() {
  g_server->reset_configuration();
  return take();
}

static std::string virtual_key(int n, KeyState state) {
  return message([&](auto& h) { h.on_set_virtual_key_state_message(static_cast<Key>(*Key::first_virtual + n), state); });
}

static std::string request_key_info() {
  return message([&](auto& h) { h.on_request_next_key_info_message(); });
}

static std::string inject_input(const char* input) {
  return message([&](auto& h) { h.on_inject_input_message(parse_sequence(input, input + std::strlen(input))); });
}

static std::string inject_output(const char* output) {
  return message([&](auto& h) { h.on_inject_output_message(parse_output(output)); });
}

static std::string devices(std::vector<DeviceDesc> descs) {
  g_server->set_device_descs(std::move(descs));
  return take();
}

static std::string keys(const char* input, int device = 0) {
  for (const auto& event : parse_sequence(input, input + std::strlen(input))) {
    g_now += 10;
    g_server->translate_input(event, device);
    loop();
  }
  return take();
}

static std::string wheel(Key key, int value) {
  g_now += 10;
  g_server->translate_input({ key, KeyState::Up, static_cast<KeyEvent::value_t>(value) }, 0);
  loop();
  return take();
}

static std::string elapse(int ms) {
  g_now += ms * 1'000'000ll + 10;
  loop();
  return take();
}
''' + MAIN_CPP.replace('  demo();', '  g_server = new Server(new Client());\n  demo();', 1)

PARSE_CPP = COMMON_CPP + r'''#include "config/ParseConfig.h"
#include <sstream>

static std::string input(const char* text) try { return format_sequence(parse_input(text)); }
catch (const std::exception&) { return "error"; }

static std::string output(const char* text) try { return format_sequence(parse_output(text)); }
catch (const std::exception&) { return "error"; }

static std::string config(const char* text) try {
  static auto parse = ParseConfig();
  auto is = std::istringstream(text);
  const auto config = parse(is);
  auto res = std::string();
  for (const auto& c : config.contexts) {
    res += (c.begin_stage ? "[stage " : c.fallthrough ? "[fallthrough " : "[") + c.window_class_filter.string + "/" +
      c.window_title_filter.string + "/" + c.window_path_filter.string + "/" + c.device_filter.string + "/" +
      c.device_id_filter.string + (c.invert_modifier_filter ? "/!" : "/") + format_sequence(c.modifier_filter) + "]";
    for (const auto& i : c.inputs)
      res += " " + format_sequence(i.input) + " >> " + (i.output_index < 0 ? "command" + std::to_string(-i.output_index) :
        format_sequence(c.outputs.at(i.output_index))) + ";";
    for (const auto& o : c.command_outputs)
      res += " command" + std::to_string(-o.index) + " >> " + format_sequence(o.output) + ";";
  }
  for (const auto& a : config.actions)
    res += " $(" + a.terminal_command + ")";
  for (const auto& [name, key] : config.virtual_key_aliases)
    res += " " + name + "=" + std::to_string(*key);
  return res;
}
catch (const std::exception&) { return "error"; }
''' + MAIN_CPP


# demonstrations which run a scenario with a driver of ../harness
REPLAY_SH = '''#!/bin/bash
# runs the scenario with the sources of the working directory and compares what is observed
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 99
trap 'rm -r "$work"' EXIT
g++ -std=c++17 -O0 -w -U_FORTIFY_SOURCE -D_GLIBCXX_ASSERTIONS %s -Isrc -I"$here" -o "$work/demo" "$here/%s.cpp" %s -pthread || exit 98
DRIVER_DIR="$work" timeout 60 "$work/demo" run "$here/scenario.json" "$work/observed.json" || exit 1
if [ -n "$DEMO_RECORD" ]; then cp "$work/observed.json" "$DEMO_RECORD"; exit 0; fi
cmp "$work/observed.json" "$here/expected.json" || { cat "$work/observed.json"; exit 1; }
'''
DRIVERS = dict(
    stage_driver=("", "runtime/*.cpp"),
    server_driver=("", "runtime/*.cpp server/ServerState.cpp config/get_key_name.cpp common/output.cpp"),
    parse_driver=("", "config/ParseKeySequence.cpp config/get_key_name.cpp common/output.cpp client/unix/StringTyperImpl.cpp client/unix/StringTyperGeneric.cpp"),
    config_driver=("", "config/*.cpp common/output.cpp client/unix/StringTyperImpl.cpp client/unix/StringTyperGeneric.cpp"),
    link_driver=("", "runtime/*.cpp server/ClientPort.cpp client/ServerPort.cpp common/Connection.cpp common/Host.cpp common/output.cpp"),
    client_driver=("-DENABLE_X11 -DENABLE_APPINDICATOR", "client/Settings.cpp client/unix/TrayIcon.cpp runtime/*.cpp config/*.cpp client/ClientState.cpp client/ConfigFile.cpp client/ControlPort.cpp "
                   "client/ServerPort.cpp client/unix/FocusedWindowImpl.cpp client/unix/StringTyperImpl.cpp client/unix/StringTyperGeneric.cpp "
                   "server/ClientPort.cpp common/Connection.cpp common/Host.cpp common/output.cpp"),
    daemon_driver=("", "runtime/*.cpp server/ServerState.cpp server/ClientPort.cpp server/Settings.cpp server/unix/GrabbedDevicesLinux.cpp "
                   "server/unix/VirtualDevicesLinux.cpp client/ServerPort.cpp config/get_key_name.cpp common/Connection.cpp common/Host.cpp common/output.cpp"),
)


def write_replay(b, d):
    import glob
    name, scenario = b["replay"]
    flags, files = DRIVERS[name]
    for f in glob.glob(os.path.join(ROOT, "harness", "*.h")) + [os.path.join(ROOT, "harness", name + ".cpp")]:
        shutil.copy(f, d)
    with open(d + "/scenario.json", "w") as f:
        json.dump(scenario, f)
        f.write("\n")
    open(d + "/demo.sh", "w").write(REPLAY_SH % (flags, name, " ".join("src/" + f for f in files.split())))
    env = dict(os.environ, DEMO_RECORD=d + "/expected.json")
    return sh("bash %s/demo.sh" % d, cwd=COPY, timeout=300, env=env)


def body(b, expected):
    # statements of the demonstration
    e = iter(expected or ())
    res = ""
    if "groups" in b:
        for g in b["groups"]:
            res += '  {\n  auto ptr = create_multi_stage(R"(\n%s\n)");\n  auto& stage = *ptr;\n' % b["conf"]
            for l in g:
                res += '  expect(R"(%s)", %s, R"(%s)");\n' % (l, re.sub(r"^(\w+)\(", r"\1(stage, ", l).replace(", )", ")"), next(e, "?"))
            res += "  }\n"
        return res
    if "conf" in b and not b.get("server"):
        res += '  auto ptr = create_multi_stage(R"(\n%s\n)");\n  auto& stage = *ptr;\n' % b["conf"]
    for l in b["steps"]:
        call = l if b.get("server") or b.get("parse") else re.sub(r"^(\w+)\(", r"\1(stage, ", l).replace(", )", ")")
        res += '  expect(R"(%s)", %s, R"(%s)");\n' % (l.replace(')"', '') if b.get("parse") else l, call, next(e, "?"))
    return res


def sources(b):
    s = TEST_SOURCES
    if b.get("server"):
        s += " src/server/ServerState.cpp"
    return s


def random_groups(b):
    """inputs among which those are chosen which tell the trees apart"""
    import random
    r = random.Random(b["id"])
    a = b["auto"]
    res = []
    for _ in range(600):
        g = ["contexts({%s})" % a.get("contexts", "0")]
        if a.get("devices"):
            g.append("devices({%s})" % ", ".join('{ "%s", "%s" }' % (d, d) for d in a["devices"]))
        down = {}
        for _ in range(r.randint(2, 9)):
            x = r.random()
            if a.get("timeouts") and x < .3:
                g.append("elapsed(%d)" % r.choice(a["timeouts"]))
            elif a.get("changes") and x < .4:
                g.append("contexts({%s})" % r.choice(a["changes"]))
            else:
                d = r.randrange(len(a.get("devices", "x")))
                k = r.choice(a["keys"].split())
                if down.get(k) == d and r.random() < .7:
                    del down[k]
                    g.append('keys("-%s", %d)' % (k, d))
                elif k not in down or (down[k] == d and r.random() < .5):
                    down[k] = d
                    g.append('keys("+%s", %d)' % (k, d))
        g += ['keys("-%s", %d)' % x for x in down.items()]
        res.append(g + ["down()"])
    return res


def choose_groups(b, tmp, apply):
    b = dict(b, groups=random_groups(b))
    seen = []
    for patched in (False, True):
        if patched:
            apply()
        write_demo(b, tmp, None)
        r = sh("bash %s/demo.sh" % tmp, cwd=COPY, timeout=600, env=dict(os.environ, DEMO_RECORD="1"))
        seen.append(iter(re.findall(r"^@=(.*)$", r.stdout, re.M)))
    res = []
    for g in b["groups"]:
        x, y = [[next(s, None) for _ in g] for s in seen]
        if x != y:
            res.append(g)
    return sorted(res, key=len)[:3]


def write_demo(b, d, expected):
    open(d + "/demo.cpp", "w").write((SERVER_CPP if b.get("server") else PARSE_CPP if b.get("parse") else ENGINE_CPP).replace("@BODY@", body(b, expected)))
    open(d + "/demo.sh", "w").write(ENGINE_SH % sources(b))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not os.path.isdir(COPY):
        sh("cp -a /repo %s" % COPY)
        shutil.rmtree(COPY + "/_build", ignore_errors=True)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (COPY, COPY))
    r = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DENABLE_TEST=ON -DCMAKE_C_COMPILER=gcc "
           "-DCMAKE_CXX_COMPILER=g++ -DENABLE_X11=ON -DENABLE_XKBCOMMON=ON -DENABLE_DBUS=ON -DENABLE_WAYLAND=ON "
           "-DENABLE_APPINDICATOR=ON" % (COPY, COPY))
    assert r.returncode == 0, r.stdout


def build(full):
    r = sh("ninja -C %s/_build %s" % (COPY, "" if full else "test-keymapper"))
    return r.returncode == 0, r.stdout[-2000:]


def tests():
    try:
        r = sh("%s/_build/test-keymapper" % COPY, timeout=120, cwd=COPY)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    return r.returncode == 0, r.stdout[-1500:]


def demo(d):
    try:
        r = sh("bash %s/demo.sh" % d, cwd=COPY, timeout=300)
        return r.returncode, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    prepare()
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        if len(sys.argv) == 2 and os.path.isdir(d):
            continue
        sh("git -C %s checkout -q -f FETCH_HEAD" % COPY)
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT", f, s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        else:
            full = "sh" in b
            ok, out = build(True)
            if not ok:
                print(b["id"], "BUILD", out); continue
            ok, out = tests()
            if not ok:
                names = re.findall(r"^-{20,}\n(.*)\n-{20,}", out, re.M)
                print(b["id"], "TESTS CATCH", names[-1:] or out[-300:]); continue
            tmp = "/tmp/plantout/" + b["id"]
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            if full:
                for name, text in b["sh"].items():
                    open(os.path.join(tmp, name), "w").write(text)
            elif "cpp" in b:
                open(tmp + "/demo.cpp", "w").write(b["cpp"])
                open(tmp + "/demo.sh", "w").write(ENGINE_SH % b.get("sources", TEST_SOURCES))
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(tmp + "/meta.json", "w"), indent=1)
            open(tmp + "/patch.diff", "w").write(sh("git -C %s diff" % COPY).stdout)
            sh("git -C %s checkout -q -f FETCH_HEAD" % COPY)
            if full:
                build(True)
            if "replay" in b:
                r = write_replay(b, tmp)
                if r.returncode:
                    print(b["id"], "RECORD", r.stdout[-1500:]); continue
            if "auto" in b:
                groups = choose_groups(b, tmp, lambda: sh("git -C %s apply %s/patch.diff" % (COPY, tmp)))
                sh("git -C %s checkout -q -f FETCH_HEAD" % COPY)
                if not groups:
                    print(b["id"], "NOTHING TELLS APART"); continue
                b = dict(b, groups=groups, steps=sum(groups, []))
            if "steps" in b:
                # expected values are those of the unchanged tree
                write_demo(b, tmp, None)
                r = sh("bash %s/demo.sh" % tmp, cwd=COPY, timeout=300, env=dict(os.environ, DEMO_RECORD="1"))
                exp = re.findall(r"^@=(.*)$", r.stdout, re.M)
                if len(exp) != len(b["steps"]):
                    print(b["id"], "RECORD", r.stdout[-1500:]); continue
                for l, e in zip(b["steps"], exp):
                    print("    %s -> %s" % (l, e))
                write_demo(b, tmp, exp)
            rc0, out0 = demo(tmp)
            sh("git -C %s apply %s/patch.diff" % (COPY, tmp))
            if full:
                build(True)
            rc1, out1 = demo(tmp)
            sh("git -C %s checkout -q -f FETCH_HEAD" % COPY)
            if rc0 != 0:
                print(b["id"], "DEMO FAILS UNCHANGED", rc0, out0)
            elif rc1 in (0, 98, 99):
                print(b["id"], "DEMO DOES NOT SHOW", rc1, out1[-400:])
            else:
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(tmp, d)
                print(b["id"], "OK", out1.splitlines()[:1])
    sh("git -C %s checkout -q -f FETCH_HEAD" % COPY)


main()
