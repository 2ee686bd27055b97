#pragma once
// The transport under control of the driver: the code under test uses real
// sockets until a connection is established, from then on the bytes of the
// connection pass through queues of the driver, which decides how many bytes
// arrive when, how much a call accepts or returns and which calls are
// interrupted. Names of listening sockets are made unique, so that drivers
// do not get into each other's way.

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <poll.h>
#include <stdarg.h>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

namespace net {
  struct Pipe {
    std::string data;       // everything written so far
    size_t arrived{ };      // bytes the reader can see
    size_t taken{ };        // bytes the reader has taken
    size_t limit{ ~size_t{ } };  // the stream broke off here
    bool closed{ };         // no further bytes are written
    bool automatic{ };      // everything arrives at once

    size_t end() const { return std::min(limit, data.size()); }
    size_t available() const { return (automatic ? end() : std::min(arrived, end())) - taken; }
    bool ended() const { return closed && taken + available() == end(); }
  };

  struct End {
    std::shared_ptr<Pipe> in, out;
  };

  // other things a file descriptor may stand for
  struct File {
    virtual ~File() = default;
    virtual bool readable() { return false; }
    virtual ssize_t read(char*, size_t) { errno = EINVAL; return -1; }
    virtual ssize_t write(const char*, size_t) { errno = EINVAL; return -1; }
    virtual int ioctl(unsigned long, void*) { errno = ENOTTY; return -1; }
  };

  struct State {
    std::map<int, End> ends;
    std::map<int, std::shared_ptr<File>> files;
    int instance{ };
    std::atomic<int> connected{ -1 };    // socket which was connected last
    std::atomic<int> established{ -1 };  // same, when connecting succeeded
    std::atomic<int> accepted{ -1 };     // socket which was accepted last
    unsigned calls{ };
    bool rough{ true };     // short and interrupted calls
    bool all{ };            // also waiting for other things is under control
    // called when the code under test waits, returns 0 on timeout, -1 when
    // interrupted
    std::function<int(int fd, long long ns)> wait;
    // the time, when it passes while the code under test waits
    std::function<long long()> now;
    // called before connecting and before sending
    std::function<void(int fd)> connecting;
    std::function<void(int fd, size_t length)> sending;
  };

  inline State& state() {
    static State s;
    return s;
  }

  inline End* find(int fd) {
    auto& ends = state().ends;
    const auto it = ends.find(fd);
    return (it == ends.end() ? nullptr : &it->second);
  }

  inline File* file(int fd) {
    auto& files = state().files;
    const auto it = files.find(fd);
    return (it == files.end() ? nullptr : it->second.get());
  }

  inline bool controlled(int fd) {
    return state().all || find(fd) || file(fd);
  }

  // from now on the bytes between the sockets are under control
  inline std::pair<std::shared_ptr<Pipe>, std::shared_ptr<Pipe>> control(int a, int b) {
    auto ab = std::make_shared<Pipe>(), ba = std::make_shared<Pipe>();
    state().ends[a] = { ba, ab };
    state().ends[b] = { ab, ba };
    return { ab, ba };
  }

  // how much of a call is done: now and then interrupted, mostly short
  inline size_t portion(size_t length) {
    if (!state().rough)
      return length;
    static const size_t portions[] = { 1000000, 1, 0, 2, 1000000, 7, 0, 100, 3, 1000000, 1024, 0, 1, 1 };
    // the larger the call, the larger the portions
    const auto p = portions[state().calls++ % std::size(portions)];
    return std::min(length, p == 0 || length < 2000 ? p : std::max(p, length / 7));
  }

  // where to send to
  inline End* destination(int fd, size_t length) {
    if (state().sending)
      state().sending(fd, length);
    return find(fd);
  }

  inline ssize_t send(End& end, const char* data, size_t length) {
    if (end.out->closed || end.in->closed) {
      errno = EPIPE;
      return -1;
    }
    const auto n = portion(length);
    if (n == 0 && length > 0) {
      errno = (state().calls % 2 ? EINTR : EAGAIN);
      return -1;
    }
    end.out->data.append(data, n);
    return static_cast<ssize_t>(n);
  }

  inline ssize_t recv(End& end, char* data, size_t length, bool peek) {
    auto& in = *end.in;
    const auto available = std::min(length, in.available());
    if (!available) {
      if (in.ended())
        return 0;
      errno = EAGAIN;
      return -1;
    }
    const auto n = portion(available);
    if (n == 0) {
      errno = EINTR;
      return -1;
    }
    std::memcpy(data, in.data.data() + in.taken, n);
    if (!peek)
      in.taken += n;
    return static_cast<ssize_t>(n);
  }

  inline bool readable(int fd) {
    if (auto end = find(fd))
      return end->in->available() || end->in->ended();
    if (auto f = file(fd))
      return f->readable();
    auto p = pollfd{ fd, POLLIN, 0 };
    auto ts = timespec{ };
    return syscall(SYS_ppoll, &p, 1, &ts, nullptr, 0) > 0;
  }

  inline sockaddr_un rename(const sockaddr* addr) {
    auto a = sockaddr_un{ };
    std::memcpy(&a, addr, sizeof(a));
    const auto suffix = "-" + std::to_string(getpid()) + "-" + std::to_string(state().instance);
    if (a.sun_family == AF_UNIX && a.sun_path[0] == 0) {
      const auto n = strnlen(a.sun_path + 1, sizeof(a.sun_path) - 2);
      std::strncpy(a.sun_path + 1 + n, suffix.c_str(), sizeof(a.sun_path) - 2 - n);
    }
    return a;
  }
} // namespace net

extern "C" {
int bind(int fd, const sockaddr* addr, socklen_t) {
  const auto a = net::rename(addr);
  return static_cast<int>(syscall(SYS_bind, fd, &a, sizeof(a)));
}

int connect(int fd, const sockaddr* addr, socklen_t) {
  const auto a = net::rename(addr);
  if (net::state().connecting)
    net::state().connecting(fd);
  net::state().connected = fd;
  const auto result = static_cast<int>(syscall(SYS_connect, fd, &a, sizeof(a)));
  if (!result)
    net::state().established = fd;
  return result;
}

int accept4(int fd, sockaddr* addr, socklen_t* addr_len, int flags) {
  return net::state().accepted = static_cast<int>(syscall(SYS_accept4, fd, addr, addr_len, flags));
}

int accept(int fd, sockaddr* addr, socklen_t* addr_len) {
  return accept4(fd, addr, addr_len, 0);
}

ssize_t sendto(int fd, const void* data, size_t length, int flags, const sockaddr* addr, socklen_t addr_len) {
  if (auto end = net::destination(fd, length))
    return net::send(*end, static_cast<const char*>(data), length);
  return syscall(SYS_sendto, fd, data, length, flags, addr, addr_len);
}

ssize_t send(int fd, const void* data, size_t length, int flags) {
  return sendto(fd, data, length, flags, nullptr, 0);
}

ssize_t write(int fd, const void* data, size_t length) {
  if (auto end = net::destination(fd, length))
    return net::send(*end, static_cast<const char*>(data), length);
  if (auto f = net::file(fd))
    return f->write(static_cast<const char*>(data), length);
  return syscall(SYS_write, fd, data, length);
}

static size_t net_length(const iovec* iov, size_t count) {
  auto length = size_t{ };
  for (auto i = size_t{ }; i < count; ++i)
    length += iov[i].iov_len;
  return length;
}

ssize_t sendmsg(int fd, const msghdr* msg, int flags) {
  if (auto end = net::destination(fd, net_length(msg->msg_iov, msg->msg_iovlen))) {
    for (auto i = size_t{ }; i < msg->msg_iovlen; ++i)
      if (msg->msg_iov[i].iov_len)
        return net::send(*end, static_cast<const char*>(msg->msg_iov[i].iov_base), msg->msg_iov[i].iov_len);
    return 0;
  }
  return syscall(SYS_sendmsg, fd, msg, flags);
}

ssize_t writev(int fd, const iovec* iov, int count) {
  if (net::destination(fd, net_length(iov, static_cast<size_t>(count)))) {
    auto msg = msghdr{ };
    msg.msg_iov = const_cast<iovec*>(iov);
    msg.msg_iovlen = static_cast<size_t>(count);
    return sendmsg(fd, &msg, 0);
  }
  if (auto f = net::file(fd)) {
    auto data = std::string();
    for (auto i = 0; i < count; ++i)
      data.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
    return f->write(data.data(), data.size());
  }
  return syscall(SYS_writev, fd, iov, count);
}

ssize_t recvfrom(int fd, void* data, size_t length, int flags, sockaddr* addr, socklen_t* addr_len) {
  if (auto end = net::find(fd))
    return net::recv(*end, static_cast<char*>(data), length, flags & MSG_PEEK);
  return syscall(SYS_recvfrom, fd, data, length, flags, addr, addr_len);
}

ssize_t recv(int fd, void* data, size_t length, int flags) {
  return recvfrom(fd, data, length, flags, nullptr, nullptr);
}

ssize_t read(int fd, void* data, size_t length) {
  if (auto end = net::find(fd))
    return net::recv(*end, static_cast<char*>(data), length, false);
  if (auto f = net::file(fd))
    return f->read(static_cast<char*>(data), length);
  return syscall(SYS_read, fd, data, length);
}

ssize_t recvmsg(int fd, msghdr* msg, int flags) {
  if (auto end = net::find(fd)) {
    for (auto i = size_t{ }; i < msg->msg_iovlen; ++i)
      if (msg->msg_iov[i].iov_len)
        return net::recv(*end, static_cast<char*>(msg->msg_iov[i].iov_base), msg->msg_iov[i].iov_len,
          flags & MSG_PEEK);
    return 0;
  }
  return syscall(SYS_recvmsg, fd, msg, flags);
}

int close(int fd) {
  auto& ends = net::state().ends;
  const auto it = ends.find(fd);
  if (it != ends.end()) {
    it->second.out->closed = true;
    it->second.in->closed = true;
    ends.erase(it);
  }
  net::state().files.erase(fd);
  return static_cast<int>(syscall(SYS_close, fd));
}

int shutdown(int fd, int how) {
  if (auto end = net::find(fd)) {
    if (how != SHUT_RD)
      end->out->closed = true;
    return 0;
  }
  return static_cast<int>(syscall(SYS_shutdown, fd, how));
}

// waiting for several sockets at once: at least one of them is controlled
static int net_poll(pollfd* fds, nfds_t count, long long ns) {
  auto& now = net::state().now;
  const auto until = (now && ns > 0 ? now() + ns : 0);
  for (;;) {
    auto ready = 0;
    for (auto i = nfds_t{ }; i < count; ++i) {
      fds[i].revents = 0;
      if (fds[i].fd < 0)
        continue;
      if ((fds[i].events & POLLIN) && net::readable(fds[i].fd))
        fds[i].revents |= POLLIN;
      if ((fds[i].events & POLLOUT) && net::controlled(fds[i].fd))
        fds[i].revents |= POLLOUT;
      ready += (fds[i].revents != 0);
    }
    if (ready || ns == 0)
      return ready;
    if (until && (ns = until - now()) <= 0)
      return 0;
    auto& wait = net::state().wait;
    const auto result = (wait ? wait(fds[0].fd, ns) : 0);
    if (result < 0) {
      errno = EINTR;
      return -1;
    }
    if (!result) {
      if (ns < 0)
        _exit(98);  // would wait forever
      return 0;
    }
  }
}

int ppoll(pollfd* fds, nfds_t count, const timespec* timeout, const sigset_t* mask) {
  for (auto i = nfds_t{ }; i < count; ++i)
    if (net::controlled(fds[i].fd))
      return net_poll(fds, count, timeout ? timeout->tv_sec * 1'000'000'000ll + timeout->tv_nsec : -1);
  auto ts = (timeout ? *timeout : timespec{ });
  return static_cast<int>(syscall(SYS_ppoll, fds, count, timeout ? &ts : nullptr, mask, 8));
}

int poll(pollfd* fds, nfds_t count, int timeout) {
  auto ts = timespec{ timeout / 1000, (timeout % 1000) * 1000000l };
  return ppoll(fds, count, timeout < 0 ? nullptr : &ts, nullptr);
}

int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* timeout) {
  auto fds = std::unique_ptr<pollfd[]>(new pollfd[static_cast<size_t>(n)]);
  auto count = nfds_t{ };
  auto controlled = false;
  for (auto fd = 0; fd < n; ++fd) {
    const auto events = (r && FD_ISSET(fd, r) ? POLLIN : 0) | (w && FD_ISSET(fd, w) ? POLLOUT : 0);
    if (events && syscall(SYS_fcntl, fd, 1 /* F_GETFD */, 0) < 0) {
      errno = EBADF;
      return -1;
    }
    if (events)
      fds[count++] = { fd, static_cast<short>(events), 0 };
    controlled |= (events && net::controlled(fd));
  }
  if (!controlled) {
    auto ts = timespec{ };
    if (timeout)
      ts = { timeout->tv_sec, timeout->tv_usec * 1000 };
    return static_cast<int>(syscall(SYS_pselect6, n, r, w, e, timeout ? &ts : nullptr, nullptr));
  }
  const auto result = net_poll(fds.get(), count,
    timeout ? timeout->tv_sec * 1'000'000'000ll + timeout->tv_usec * 1000ll : -1);
  if (result < 0)
    return result;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  for (auto i = nfds_t{ }; i < count; ++i) {
    if (fds[i].revents & POLLIN) FD_SET(fds[i].fd, r);
    if (fds[i].revents & POLLOUT) FD_SET(fds[i].fd, w);
  }
  return result;
}
} // extern "C"
