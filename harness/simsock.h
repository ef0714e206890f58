// A network of simulated hosts: the socket calls of the code under test (linked with --wrap) made from a
// scheduled thread act on it.  Host k (the tag of the calling thread modulo 256; the rest of the tag is the process) has the address 10.0.0.(k+1), and 127.0.0.1 for itself.
#pragma once
#include <string>
#include <utility>
#include <vector>
namespace sim {
struct Config {
  std::size_t capacity = 4;   // bytes a connection holds per direction
  bool shorts = true;         // reads and writes may move fewer bytes than they could
};
void reset(const Config& c);                 // a new, empty network
std::pair<int, int> pair(int host_a = 0, int host_b = 0);   // a ready connection
void abort_connection(int fd);               // the connection fails
int open_sockets();                          // sockets not closed yet
int listeners();                             // sockets still listening
bool is_open(int fd);
std::string peer_of(int fd);
std::pair<long, long> traffic(int from, int to);   // bytes written and read between two processes
extern std::vector<std::string> problems;    // what no correct program does: a killed process, a bad descriptor
}  // namespace sim
