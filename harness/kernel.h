#pragma once
// The input devices of a system under control of the driver: devices which
// can be plugged in and out, what is done to them by the code under test, the
// virtual devices it creates, and their listing in the file system. Nothing
// of it touches the devices of the machine.

#include "net.h"
#include <dirent.h>
#include <fcntl.h>
#include <linux/input.h>
#include <linux/uinput.h>
#include <map>
#include <set>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <vector>

namespace kernel {
  struct Capabilities {
    std::string name;
    input_id id{ };
    bool supported{ true };
    std::map<int, std::set<int>> codes;    // by event type
    std::map<int, input_absinfo> axes;
    std::set<int> properties;

    bool has(int type, int code) const {
      const auto it = codes.find(type);
      return it != codes.end() && it->second.count(code);
    }
  };

  struct Handle;

  struct Device : Capabilities {
    int number{ -1 };         // of the event device
    std::string link;         // name in by-id
    bool gone{ };
    std::set<int> down;
    std::vector<std::weak_ptr<Handle>> handles;
    std::weak_ptr<Handle> grab;
    std::vector<std::vector<int>> pending;  // events of the next packet
    int tag{ };               // number used by the driver
  };
  using DevicePtr = std::shared_ptr<Device>;

  struct State {
    std::vector<DevicePtr> devices;
    std::vector<std::weak_ptr<struct Monitor>> monitors;
    unsigned calls{ };
    int next_number{ 100 };
    std::function<void(const DevicePtr&)> created;
    std::function<void(const DevicePtr&)> destroyed;
    std::function<void(Device&, const std::vector<std::vector<int>>&)> packet;
    std::function<void(long long ns)> sleep;
    std::function<void()> listed;
  };

  inline State& state() {
    static auto s = State();
    return s;
  }

  // now and then a call is interrupted
  inline bool interrupted() {
    if (++state().calls % 7 != 3)
      return false;
    errno = EINTR;
    return true;
  }

  inline int new_fd(std::shared_ptr<net::File> file) {
    const auto fd = static_cast<int>(syscall(SYS_eventfd2, 0, 0));
    net::state().files[fd] = std::move(file);
    return fd;
  }

  template<typename Set>
  void set_bits(void* data, size_t size, const Set& bits) {
    std::memset(data, 0, size);
    for (auto b : bits)
      if (static_cast<size_t>(b) / 8 < size)
        static_cast<unsigned char*>(data)[b / 8] |= (1u << (b % 8));
  }

  // what is opened of an input device
  struct Handle : net::File, std::enable_shared_from_this<Handle> {
    DevicePtr device;
    std::vector<input_event> queue;

    explicit Handle(DevicePtr device) : device(std::move(device)) { }

    bool readable() override { return !queue.empty() || device->gone; }

    ssize_t read(char* data, size_t size) override {
      if (device->gone) {
        errno = ENODEV;
        return -1;
      }
      if (interrupted())
        return -1;
      const auto n = std::min(size / sizeof(input_event), queue.size());
      if (!n) {
        errno = (size < sizeof(input_event) ? EINVAL : EAGAIN);
        return -1;
      }
      std::memcpy(data, queue.data(), n * sizeof(input_event));
      queue.erase(queue.begin(), queue.begin() + n);
      return static_cast<ssize_t>(n * sizeof(input_event));
    }

    int ioctl(unsigned long request, void* arg) override {
      const auto& d = *device;
      if (d.gone) {
        errno = ENODEV;
        return -1;
      }
      const auto size = static_cast<size_t>(_IOC_SIZE(request));
      const auto nr = static_cast<int>(_IOC_NR(request));
      if (_IOC_TYPE(request) != 'E') {
        errno = EINVAL;
        return -1;
      }
      if (request == EVIOCGVERSION)
        *static_cast<int*>(arg) = (d.supported ? EV_VERSION : 0x10000);
      else if (request == EVIOCGID)
        *static_cast<input_id*>(arg) = d.id;
      else if (nr == 0x06) {
        const auto n = std::min(size, d.name.size() + 1);
        std::memcpy(arg, d.name.c_str(), n);
        return static_cast<int>(n);
      }
      else if (nr == 0x07 || nr == 0x08) {
        errno = ENOENT;
        return -1;
      }
      else if (nr == 0x09)
        set_bits(arg, size, d.properties);
      else if (nr == 0x18)
        set_bits(arg, size, d.down);
      else if (nr == 0x19 || nr == 0x1a || nr == 0x1b)
        std::memset(arg, 0, size);
      else if (nr >= 0x20 && nr < 0x40) {
        auto bits = std::set<int>();
        if (nr == 0x20) {
          for (const auto& [type, codes] : d.codes)
            bits.insert(type);
        }
        else if (const auto it = d.codes.find(nr - 0x20); it != d.codes.end())
          bits = it->second;
        set_bits(arg, size, bits);
        return static_cast<int>(size);
      }
      else if (nr >= 0x40 && nr < 0x80) {
        const auto it = d.axes.find(nr - 0x40);
        if (it == d.axes.end()) {
          // the kernel has no axes to tell about
          if (!d.codes.count(EV_ABS)) {
            errno = EINVAL;
            return -1;
          }
          *static_cast<input_absinfo*>(arg) = { };
        }
        else
          *static_cast<input_absinfo*>(arg) = it->second;
      }
      else if (nr == 0x90) {
        const auto holder = device->grab.lock();
        if (arg) {
          if (holder) {
            errno = EBUSY;
            return -1;
          }
          device->grab = shared_from_this();
        }
        else {
          if (holder.get() != this) {
            errno = EINVAL;
            return -1;
          }
          device->grab.reset();
        }
      }
      else {
        errno = EINVAL;
        return -1;
      }
      return 0;
    }
  };

  struct Monitor : net::File {
    bool watching{ };
    std::string events;
    bool readable() override { return !events.empty(); }
    ssize_t read(char* data, size_t size) override {
      const auto n = std::min(size, events.size());
      std::memcpy(data, events.data(), n);
      events.erase(0, n);
      return static_cast<ssize_t>(n);
    }
  };

  inline void notify(uint32_t mask, const std::string& name) {
    for (auto& m : state().monitors)
      if (auto monitor = m.lock(); monitor && monitor->watching) {
        auto event = inotify_event{ };
        event.wd = 1;
        event.mask = mask;
        event.len = 16;
        monitor->events.append(reinterpret_cast<const char*>(&event), sizeof(event));
        char buffer[16]{ };
        std::strncpy(buffer, name.c_str(), sizeof(buffer) - 1);
        monitor->events.append(buffer, sizeof(buffer));
      }
  }

  inline void add(const DevicePtr& device) {
    device->gone = false;
    state().devices.push_back(device);
    notify(IN_CREATE, "event" + std::to_string(device->number));
  }

  inline void remove(const DevicePtr& device) {
    auto& devices = state().devices;
    device->gone = true;
    devices.erase(std::remove(devices.begin(), devices.end(), device), devices.end());
    notify(IN_DELETE, "event" + std::to_string(device->number));
  }

  // an event of the device
  inline void emit(Device& device, int type, int code, int value) {
    if (type == EV_KEY) {
      if (value)
        device.down.insert(code);
      else
        device.down.erase(code);
    }
    auto event = input_event{ };
    event.type = static_cast<unsigned short>(type);
    event.code = static_cast<unsigned short>(code);
    event.value = value;
    const auto holder = device.grab.lock();
    for (auto& h : device.handles)
      if (auto handle = h.lock(); handle && (!holder || holder == handle))
        handle->queue.push_back(event);
  }

  // a virtual device
  struct UInput : net::File {
    DevicePtr device = std::make_shared<Device>();
    bool created{ };

    ~UInput() override { destroy(); }

    void destroy() {
      if (!created)
        return;
      created = false;
      remove(device);
      if (state().destroyed)
        state().destroyed(device);
    }

    int ioctl(unsigned long request, void* arg) override {
      const auto code = static_cast<int>(reinterpret_cast<intptr_t>(arg));
      auto& d = *device;
      switch (request) {
        case UI_SET_EVBIT: d.codes[code]; return 0;
        case UI_SET_KEYBIT: d.codes[EV_KEY].insert(code); return 0;
        case UI_SET_RELBIT: d.codes[EV_REL].insert(code); return 0;
        case UI_SET_ABSBIT: d.codes[EV_ABS].insert(code); return 0;
        case UI_SET_MSCBIT: d.codes[EV_MSC].insert(code); return 0;
        case UI_SET_SWBIT: d.codes[EV_SW].insert(code); return 0;
        case UI_SET_LEDBIT: d.codes[EV_LED].insert(code); return 0;
        case UI_SET_PROPBIT: d.properties.insert(code); return 0;
        case UI_ABS_SETUP: {
          const auto& setup = *static_cast<uinput_abs_setup*>(arg);
          d.codes[EV_ABS].insert(setup.code);
          d.axes[setup.code] = setup.absinfo;
          return 0;
        }
        case UI_DEV_SETUP: {
          const auto& setup = *static_cast<uinput_setup*>(arg);
          d.name = std::string(setup.name, strnlen(setup.name, UINPUT_MAX_NAME_SIZE - 1));
          d.id = setup.id;
          return 0;
        }
        case UI_DEV_CREATE:
          if (created || d.name.empty()) {
            errno = EINVAL;
            return -1;
          }
          created = true;
          d.codes[EV_SYN];
          d.number = state().next_number++;
          if (state().created)
            state().created(device);
          add(device);
          return 0;
        case UI_DEV_DESTROY:
          destroy();
          return 0;
      }
      errno = EINVAL;
      return -1;
    }

    ssize_t write(const char* data, size_t size) override {
      if (!created || size % sizeof(input_event)) {
        errno = EINVAL;
        return -1;
      }
      if (interrupted())
        return -1;
      for (auto pos = size_t{ }; pos < size; pos += sizeof(input_event)) {
        auto event = input_event{ };
        std::memcpy(&event, data + pos, sizeof(event));
        inject(event.type, event.code, event.value);
      }
      return static_cast<ssize_t>(size);
    }

    // as the kernel does, what changes nothing or is not supported is ignored
    void inject(int type, int code, int value) {
      auto& d = *device;
      if (type == EV_SYN) {
        if (code == SYN_REPORT && !d.pending.empty())
          state().packet(d, std::exchange(d.pending, { }));
        return;
      }
      if (!d.has(type, code))
        return;
      if (type == EV_KEY && value != 2) {
        if ((d.down.count(code) > 0) == (value != 0))
          return;
        if (value)
          d.down.insert(code);
        else
          d.down.erase(code);
      }
      if (type == EV_REL && !value)
        return;
      d.pending.push_back({ type, code, value });
    }
  };

  // directories
  struct Entry {
    std::string name, target;
    unsigned char type{ };
  };

  struct Directory {
    std::vector<Entry> entries;
    size_t position{ };
    dirent entry{ };
    int fd{ -1 };
    bool devices{ };
  };

  inline std::set<Directory*>& directories() {
    static auto d = std::set<Directory*>();
    return d;
  }

  struct DirectoryFile : net::File {
    std::string path;
  };

  inline std::string normalize(const char* path) {
    auto p = std::string(path);
    while (p.size() > 1 && p.back() == '/')
      p.pop_back();
    return p;
  }

  inline bool is_directory(const std::string& path) {
    return path == "/dev/input" || path == "/dev/input/by-id" || path == "/dev/input/by-path";
  }

  inline std::vector<Entry> list(const std::string& path) {
    auto entries = std::vector<Entry>();
    if (path == "/dev/input") {
      entries.push_back({ "by-id", "", DT_DIR });
      entries.push_back({ "by-path", "", DT_DIR });
      entries.push_back({ "mice", "", DT_CHR });
      for (const auto& d : state().devices)
        entries.push_back({ "event" + std::to_string(d->number), "", DT_CHR });
      entries.push_back({ "js0", "", DT_CHR });
    }
    else if (path == "/dev/input/by-id") {
      entries.push_back({ "some-mouse", "../mouse0", DT_LNK });
      for (const auto& d : state().devices)
        if (!d->link.empty())
          entries.push_back({ d->link, "../event" + std::to_string(d->number), DT_LNK });
      entries.push_back({ "some-joystick", "../js0", DT_LNK });
    }
    // in no particular order
    if (!entries.empty())
      std::rotate(entries.begin(), entries.begin() + (state().calls++ % entries.size()), entries.end());
    return entries;
  }

  inline DevicePtr find(const std::string& path) {
    for (const auto& d : state().devices)
      if (path == "/dev/input/event" + std::to_string(d->number))
        return d;
    return nullptr;
  }

  inline int open(const std::string& path) {
    if (is_directory(path)) {
      auto file = std::make_shared<DirectoryFile>();
      file->path = path;
      return new_fd(file);
    }
    if (interrupted())
      return -1;
    if (path == "/dev/uinput")
      return new_fd(std::make_shared<UInput>());
    if (auto device = find(path)) {
      auto handle = std::make_shared<Handle>(device);
      device->handles.push_back(handle);
      return new_fd(handle);
    }
    errno = ENOENT;
    return -1;
  }

  inline bool is_ours(const std::string& path) {
    return path.rfind("/dev/input", 0) == 0 || path == "/dev/uinput";
  }

  // 0 when it does not exist, -1 when it is not ours
  inline int file_mode(const char* path, bool follow) {
    const auto p = normalize(path);
    if (!is_ours(p))
      return -1;
    if (is_directory(p))
      return S_IFDIR | 0755;
    if (p == "/dev/uinput")
      return S_IFCHR | 0600;
    const auto slash = p.find_last_of('/');
    for (const auto& e : list(p.substr(0, slash)))
      if (e.name == p.substr(slash + 1))
        return (e.type == DT_LNK && !follow ? S_IFLNK | 0777 :
          e.type == DT_DIR ? S_IFDIR | 0755 : S_IFCHR | 0600);
    return 0;
  }

  inline int fake_stat(const char* path, struct stat* buf, bool follow) {
    const auto mode = file_mode(path, follow);
    if (mode < 0)
      return -2;
    if (!mode) {
      errno = ENOENT;
      return -1;
    }
    *buf = { };
    buf->st_mode = static_cast<mode_t>(mode);
    buf->st_nlink = 1;
    return 0;
  }
} // namespace kernel

extern "C" {
int openat(int dir, const char* path, int flags, ...) {
  va_list args;
  va_start(args, flags);
  const auto mode = va_arg(args, int);
  va_end(args);
  const auto p = kernel::normalize(path);
  if (kernel::is_ours(p))
    return kernel::open(p);
  return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
}

int open(const char* path, int flags, ...) {
  va_list args;
  va_start(args, flags);
  const auto mode = va_arg(args, int);
  va_end(args);
  return openat(AT_FDCWD, path, flags, mode);
}

int open64(const char* path, int flags, ...) {
  return open(path, flags, 0600);
}

// used by libraries which were compiled with _FORTIFY_SOURCE
int __openat_2(int dir, const char* path, int flags) {
  return openat(dir, path, flags, 0600);
}

int __open_2(const char* path, int flags) {
  return openat(AT_FDCWD, path, flags, 0600);
}

int dup(int fd) {
  const auto result = static_cast<int>(syscall(SYS_dup, fd));
  const auto it = net::state().files.find(fd);
  if (result >= 0 && it != net::state().files.end())
    net::state().files[result] = it->second;
  return result;
}

int ioctl(int fd, unsigned long request, ...) {
  va_list args;
  va_start(args, request);
  const auto arg = va_arg(args, void*);
  va_end(args);
  if (auto file = net::file(fd))
    return file->ioctl(request, arg);
  return static_cast<int>(syscall(SYS_ioctl, fd, request, arg));
}

int inotify_init1(int) {
  auto monitor = std::make_shared<kernel::Monitor>();
  kernel::state().monitors.push_back(monitor);
  return kernel::new_fd(monitor);
}

int inotify_init() {
  return inotify_init1(0);
}

int inotify_add_watch(int fd, const char* path, uint32_t) {
  auto monitor = dynamic_cast<kernel::Monitor*>(net::file(fd));
  if (!monitor) {
    errno = EBADF;
    return -1;
  }
  if (kernel::normalize(path) == "/dev/input")
    monitor->watching = true;
  return 1;
}

DIR* opendir(const char* path) {
  const auto fd = open(path, O_RDONLY | O_DIRECTORY);
  return (fd < 0 ? nullptr : fdopendir(fd));
}

DIR* fdopendir(int fd) {
  const auto file = dynamic_cast<kernel::DirectoryFile*>(net::file(fd));
  if (!file) {
    errno = ENOTDIR;
    return nullptr;
  }
  auto directory = new kernel::Directory();
  directory->entries = kernel::list(file->path);
  directory->fd = fd;
  directory->devices = (file->path == "/dev/input");
  kernel::directories().insert(directory);
  return reinterpret_cast<DIR*>(directory);
}

int dirfd(DIR* dir) {
  return reinterpret_cast<kernel::Directory*>(dir)->fd;
}

dirent* readdir(DIR* dir) {
  auto& d = *reinterpret_cast<kernel::Directory*>(dir);
  if (d.position == d.entries.size())
    return nullptr;
  const auto& e = d.entries[d.position++];
  d.entry = { };
  d.entry.d_type = e.type;
  d.entry.d_ino = 1;
  std::strncpy(d.entry.d_name, e.name.c_str(), sizeof(d.entry.d_name) - 1);
  return &d.entry;
}

dirent64* readdir64(DIR* dir) {
  return reinterpret_cast<dirent64*>(readdir(dir));
}

int closedir(DIR* dir) {
  auto d = reinterpret_cast<kernel::Directory*>(dir);
  const auto devices = d->devices;
  close(d->fd);
  kernel::directories().erase(d);
  delete d;
  if (devices && kernel::state().listed)
    kernel::state().listed();
  return 0;
}

int stat(const char* path, struct stat* buf) {
  const auto result = kernel::fake_stat(path, buf, true);
  return (result != -2 ? result : static_cast<int>(syscall(SYS_stat, path, buf)));
}

int lstat(const char* path, struct stat* buf) {
  const auto result = kernel::fake_stat(path, buf, false);
  return (result != -2 ? result : static_cast<int>(syscall(SYS_lstat, path, buf)));
}

ssize_t readlink(const char* path, char* buffer, size_t size) {
  const auto p = kernel::normalize(path);
  if (!kernel::is_ours(p))
    return syscall(SYS_readlink, path, buffer, size);
  const auto slash = p.find_last_of('/');
  for (const auto& e : kernel::list(p.substr(0, slash)))
    if (e.name == p.substr(slash + 1) && e.type == DT_LNK) {
      const auto n = std::min(size, e.target.size());
      std::memcpy(buffer, e.target.data(), n);
      return static_cast<ssize_t>(n);
    }
  errno = EINVAL;
  return -1;
}

int usleep(useconds_t us) {
  kernel::state().sleep(us * 1000ll);
  return 0;
}

int clock_nanosleep(clockid_t, int, const timespec* ts, timespec*) {
  kernel::state().sleep(ts->tv_sec * 1'000'000'000ll + ts->tv_nsec);
  return 0;
}

int nanosleep(const timespec* ts, timespec*) {
  kernel::state().sleep(ts->tv_sec * 1'000'000'000ll + ts->tv_nsec);
  return 0;
}
} // extern "C"
