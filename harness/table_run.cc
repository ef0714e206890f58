// A discovery client is given the tables on the standard input.
#include <sys/socket.h>
#include <iostream>
#include <sstream>
#include "scl/net/discovery/client.h"
#include "scl/net/tcp_channel.h"
#include "util.h"
using std::string;
int main() {
  string line;
  while (std::getline(std::cin, line)) {        // ME COUNT then ID PORT .HOST each
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::istringstream is(line);
      unsigned me;
      std::size_t n;
      is >> me >> n;
      string raw;
      auto put = [&](const void* p, std::size_t k) { raw.append((const char*)p, k); };
      put(&n, sizeof n);
      for (std::size_t i = 0; i < n; i++) {
        unsigned id;
        int port;
        string host;
        is >> id >> port >> host;
        host = host.substr(1);
        std::size_t len = host.size();
        put(&id, sizeof id); put(&port, sizeof port); put(&len, sizeof len);
        raw += host;
      }
      int fd[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) _exit(5);
      if (write(fd[1], raw.data(), raw.size()) != (ssize_t)raw.size()) _exit(5);
      close(fd[1]);
      string r;
      try {
        std::shared_ptr<scl::Channel> ch = std::make_shared<scl::TcpChannel>(fd[0]);
        scl::DiscoveryClient::ReceiveNetworkConfig step(me);
        auto c = step.Finalize(ch);
        r = "{\"ok\":1,\"id\":" + std::to_string(c.Id()) + ",\"got\":[";
        for (std::size_t i = 0; i < c.NetworkSize(); i++) {
          auto q = c.GetParty((unsigned)i);
          r += string(i ? "," : "") + "[" + std::to_string((int)q.id) + "," + std::to_string(q.port) + ",\"" + q.hostname + "\"]";
        }
        r += "]}";
      } catch (const std::exception&) { r = "{\"ok\":0}"; }
      emit(r);
    }, 20);
    // a crash is an answer that is never right
    std::cout << (out.size() == 1 && out[0].find("crash") == string::npos ? out[0] : "{\"ok\":7}") << "\n" << std::flush;
  }
}
