// Looking at and changing files, outside the library.
#pragma once
#include "engine.hh"
#include "ref.hh"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

inline bool read_file(const std::string &p, Bytes &out) {
  int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false;
  struct stat st; out.clear();
  if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
    out.resize(st.st_size); size_t n = 0;
    while (n < out.size()) { ssize_t r = read(fd, &out[n], out.size() - n); if (r <= 0) break; n += r; }
    out.resize(n);
  }
  close(fd); return true;
}
inline void write_file(const std::string &p, const Bytes &b) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0640);
  if (fd < 0) { fprintf(stderr, "harness: cannot write %s: %s\n", p.c_str(), strerror(errno)); _exit(2); }
  size_t n = 0;
  while (n < b.size()) { ssize_t r = write(fd, b.data() + n, b.size() - n); if (r <= 0) { fprintf(stderr, "harness: short write to %s\n", p.c_str()); _exit(2); } n += r; }
  close(fd);
}
// name -> content of the regular files of a directory, "name/" for others
typedef std::map<std::string, Bytes> Files;
inline Files dir_files(const std::string &d) {
  Files f; DIR *h = opendir(d.c_str()); if (!h) return f;
  while (dirent *e = readdir(h)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    struct stat st; std::string p = d + "/" + n;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISREG(st.st_mode)) read_file(p, f[n]); else f[n + "/"];
  }
  closedir(h); return f;
}
inline bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
inline bool is_data_name(const std::string &n) {
  if (n.size() != 10) return false;
  for (char c : n) if (c < '0' || c > '9') return false;
  return true;
}
inline std::string data_name(uint32_t i) { return sfmt("%010u", i); }
// a Files without the lock file
inline Files db_files(const std::string &d) { Files f = dir_files(d); f.erase("lock"); return f; }
inline std::string files_diff(const Files &a, const Files &b) {
  for (auto &x : a) { auto it = b.find(x.first); if (it == b.end()) return "file " + x.first + " is gone"; if (it->second != x.second) { size_t i = 0; while (i < x.second.size() && i < it->second.size() && x.second[i] == it->second[i]) i++; return sfmt("file %s differs (%zu bytes, was %zu; first difference at %zu)", x.first.c_str(), it->second.size(), x.second.size(), i); } }
  for (auto &x : b) if (!a.count(x.first)) return "file " + x.first + " is new";
  return "";
}
inline void copy_dir(const std::string &from, const std::string &to) {
  if (mkdir(to.c_str(), 0750) && errno != EEXIST) { fprintf(stderr, "harness: mkdir %s\n", to.c_str()); _exit(2); }
  for (auto &f : dir_files(from)) if (f.first.back() != '/') write_file(to + "/" + f.first, f.second);
}
inline void remove_dir(const std::string &d) { // flat directories in the scratch space only
  if (d.find("/urkel-verif-") == std::string::npos) { fprintf(stderr, "harness: refusing to remove %s\n", d.c_str()); _exit(2); }
  for (auto &f : dir_files(d)) if (f.first.back() != '/') unlink((d + "/" + f.first).c_str());
  rmdir(d.c_str());
}
